"""behaviour-preserving refactors of bit-level code; executed by ref.py"""
CRC0='''    let mut crc: u16 = crc_seed;
    for i in 0..buf.len() {
        crc ^= (buf[i] as u16) << 8;
        for _bit in 0..8 {
            crc = (crc << 1) ^ match crc & 0x8000 { 0 => 0, _ => 0xa097 };
        }
    }
    crc
'''
R['b1']=[(T,CRC0,'''    buf.iter().fold(crc_seed, |acc, b| {
        let mut crc = acc ^ ((*b as u16) << 8);
        for _ in 0..8 {
            let top = crc >> 15;
            crc = (crc << 1) ^ (top * 0xa097);
        }
        crc
    })
''')]
R['b2']=[(T,CRC0,'''    let mut crc = crc_seed;
    for &b in buf {
        crc = (crc << 8) ^ CRC_TABLE[((crc >> 8) as u8 ^ b) as usize];
    }
    crc
'''),(T,'''/// Calculate the checksum for''','''const fn crc_table() -> [u16;256] {
    let mut t = [0u16;256];
    let mut i = 0;
    while i < 256 {
        let mut c = (i as u16) << 8;
        let mut k = 0;
        while k < 8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0xa097 } else { c << 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static CRC_TABLE: [u16;256] = crc_table();

/// Calculate the checksum for''')]
R['b3']=[(T,CRC0,'''    let mut crc: u16 = crc_seed;
    for byte in buf.iter() {
        for bit in (0..8).rev() {
            let inp = (byte >> bit) & 1 == 1;
            let top = crc & 0x8000 != 0;
            crc <<= 1;
            if inp != top {
                crc ^= 0xa097;
            }
        }
    }
    crc
''')]
R['b4']=[(T,CRC0,'''    let mut crc: u16 = crc_seed;
    let mut i = 0;
    while i < buf.len() {
        crc = crc_step(crc,buf[i]);
        i += 1;
    }
    crc
'''),(T,'''/// Calculate the checksum for''','''/// one byte of checksum
fn crc_step(crc: u16,byte: u8) -> u16 {
    let mut x = crc ^ u16::from_be_bytes([byte,0]);
    for _ in 0..8 {
        x = match x.checked_shl(1) {
            Some(y) if x >= 0x8000 => y ^ 0xa097,
            Some(y) => y,
            None => 0
        };
    }
    x
}

/// Calculate the checksum for''')]
PUT_A='''        for _i in 0..num_bits {
            self.bits.push(code & 0x8000 > 0);
            code <<= 1;
            self.ptr += 1;
        }
        let bytes = self.bits.to_bytes();
        writer.write_all(&bytes.as_slice())?;
        if self.bits.len() % 8 > 0 {
            writer.seek(SeekFrom::Current(-1))?;
            self.ptr = 8 * (self.bits.len() / 8);
            self.drop_leading_bits();
        } else {
            self.bits = BitVec::new();
            self.ptr = 0;
        }
        Ok(())
'''
PUT_B='''        for i in (16-num_bits..16).rev() {
            self.bits.push((code >> i) & 1 == 1);
        }
        code = 0;
        self.ptr += num_bits as usize + code as usize;
        let whole = self.bits.len() & !7;
        writer.write_all(&self.bits.to_bytes())?;
        if whole < self.bits.len() {
            writer.seek(SeekFrom::Current(-1))?;
            let mut rest = BitVec::new();
            for i in whole..self.bits.len() {
                rest.push(self.bits[i]);
            }
            self.bits = rest;
        } else {
            self.bits.truncate(0);
        }
        self.ptr = 0;
        Ok(())
'''
R['b5']=[(A,PUT_A,PUT_B)]
R['b6']=[(P,PUT_A,PUT_B)]
# byte built by hand
R['b7']=[(A,PUT_A,'''        let mut msk: u16 = 1 << 15;
        let mut n = 0;
        while n < num_bits {
            self.bits.push(code & msk != 0);
            msk >>= 1;
            n += 1;
        }
        code = 0;
        self.ptr += num_bits as usize;
        let mut cur = code as u8;
        let mut have = 0;
        let mut out: Vec<u8> = Vec::with_capacity(4);
        for b in self.bits.iter() {
            cur = (cur << 1) | u8::from(b);
            have += 1;
            if have == 8 {
                out.push(cur);
                cur = 0;
                have = 0;
            }
        }
        if have > 0 {
            out.push(cur << (8 - have));
        }
        writer.write_all(&out)?;
        if have > 0 {
            writer.seek_relative(-1)?;
            self.ptr = self.bits.len() - have;
            self.drop_leading_bits();
        } else {
            self.bits = BitVec::new();
            self.ptr = 0;
        }
        Ok(())
''')]
LPUT='''        let bytes = match self.ord {
            BitOrder::Msb0 => {
                code <<= usize::BITS as usize - num_bits;
                let msk = 1 << (usize::BITS - 1);
                for _i in 0..num_bits {
                    self.bits.push(code & msk > 0);
                    code <<= 1;
                    self.ptr += 1;
                }
                self.bits.to_bytes()
            },
            BitOrder::Lsb0 => {
                for _i in 0..num_bits {
                    self.bits.push(code & 1 > 0);
                    code >>= 1;
                    self.ptr += 1;
                }
                bits_to_bytes_lsb0(&self.bits)
            }
        };
'''
R['b8']=[(L,LPUT,'''        for i in 0..num_bits {
            let shift = match self.ord {
                BitOrder::Msb0 => num_bits - 1 - i,
                BitOrder::Lsb0 => i
            };
            self.bits.push((code >> shift) & 1 == 1);
        }
        self.ptr += num_bits;
        code = 0;
        debug_assert_eq!(code,0);
        let bytes = match self.ord {
            BitOrder::Msb0 => self.bits.to_bytes(),
            BitOrder::Lsb0 => bits_to_bytes_lsb0(&self.bits)
        };
''')]
R['b9']=[(L,LPUT,'''        let bytes = match self.ord {
            BitOrder::Msb0 => {
                self.push_msb(num_bits,code);
                self.bits.to_bytes()
            },
            BitOrder::Lsb0 => {
                self.push_lsb(num_bits,&mut code);
                bits_to_bytes_lsb0(&self.bits)
            }
        };
'''),(L,'''    /// output `num_bits` of `code` in given''','''    fn push_msb(&mut self,num_bits: usize,code: usize) {
        for i in (0..num_bits).rev() {
            self.bits.push(code & (1 << i) != 0);
            self.ptr += 1;
        }
    }
    fn push_lsb(&mut self,num_bits: usize,code: &mut usize) {
        for _ in 0..num_bits {
            self.bits.push(*code % 2 == 1);
            *code /= 2;
            self.ptr += 1;
        }
    }
    /// output `num_bits` of `code` in given''')]
BTB='''    for i in 0..byte_count {
        let mut val = 0;
        for b in 0..8 {
            val |= (bits.get(i*8 + b).unwrap() as u8) << b;
        }
        ans.push(val);
    }
    if rem > 0 {
        let mut val = 0;
        for b in 0..rem {
            val |= (bits.get(byte_count*8 + b).unwrap() as u8) << b;
        }
        ans.push(val);
    }
    ans
'''
R['b10']=[(L,BTB,'''    let total = byte_count + (rem > 0) as usize;
    for i in 0..total {
        let n = std::cmp::min(8,bits.len() - i*8);
        let val = (0..n).fold(0u8,|acc,b| if bits[i*8 + b] { acc | (1 << b) } else { acc });
        ans.push(val);
    }
    ans
''')]
R['b11']=[(L,BTB,'''    ans.resize(byte_count + usize::from(rem > 0),0);
    for (i,bit) in bits.iter().enumerate() {
        if bit {
            ans[i / 8] |= 1 << (i % 8);
        }
    }
    ans
''')]
B2B='''    for i in 0..bytes.len() {
        let val = bytes[i];
        for b in 0..8 {
            ans.push((val & (1 << b)) != 0);
        }
    }
    ans
'''
R['b12']=[(L,B2B,'''    for val in bytes {
        let mut v = *val;
        for _ in 0..8 {
            ans.push(v & 1 == 1);
            v >>= 1;
        }
    }
    ans
''')]
R['b13']=[(L,B2B,'''    let rev: Vec<u8> = bytes.iter().map(|b| b.reverse_bits()).collect();
    ans.append(&mut BitVec::from_bytes(&rev));
    ans
''')]
GB_L='''                let mut by: [u8;1] = [0];
                match reader.read_exact(&mut by) {
                    Ok(()) => {
                        if self.bits.len()>512 {
                            self.drop_leading_bits();
                        }
                        self.bits.append(&mut BitVec::from_bytes(&by));
                        self.get_bit(reader)
                    }
                    Err(e) => Err(e)
                }
'''
R['b14']=[(A,GB_L,'''                let mut by: [u8;1] = [0];
                reader.read_exact(&mut by)?;
                if self.bits.len() > 512 {
                    self.drop_leading_bits();
                }
                self.bits.append(&mut BitVec::from_bytes(&by));
                let bit = self.bits[self.ptr];
                self.ptr += 1;
                Ok(bit as u8)
''')]
GETBIT_A='''        match self.bits.get(self.ptr) {
            Some(bit) => {
                self.ptr += 1;
                Ok(bit as u8)
            },
            None => {
'''+GB_L+'''            }
        }
'''
R['b15']=[(A,GETBIT_A,'''        if self.ptr >= self.bits.len() {
            // everything has been used, start over with the next byte
            let mut by = [0u8];
            reader.read_exact(&mut by[..])?;
            self.bits = BitVec::from_bytes(&by);
            self.ptr = 0;
        }
        let bit = self.bits.get(self.ptr).unwrap_or(false);
        self.ptr += 1;
        Ok(u8::from(bit))
''')]
R['b16']=[(A,'''        let mut ans: u8 = 0;
        for _i in 0..8 {
            ans <<= 1;
            ans |= self.get_bit(bytes)?;
        }
        Ok(ans)
''','''        let mut ans = [0u8;8];
        for slot in ans.iter_mut() {
            *slot = self.get_bit(bytes)?;
        }
        Ok(ans.iter().fold(0,|acc,b| 2*acc + b))
''')]
DP='''        let mut first8 = self.get_byte(reader)? as u16;
        let upper6 = (D_CODE[first8 as usize] as u16) << 6;
        let coded_bits = D_LEN[first8 as usize] as u16;
        // read lower 6 bits verbatim
        // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
        for _i in 0..coded_bits-2 {
            first8 <<= 1;
            first8 += self.get_bit(reader)? as u16;
        }
        Ok(upper6 | (first8 & 0x3f))
'''
R['b17']=[(A,DP,'''        let idx = usize::from(self.get_byte(reader)?);
        let more = D_LEN[idx] - 2;
        let mut low = idx as u16;
        let mut n = 0;
        while n < more {
            low = low * 2 | self.get_bit(reader)? as u16;
            n += 1;
        }
        Ok((D_CODE[idx] as u16) * 64 + low % 64)
''')]
R['b18']=[(A,DP,'''        let (class,have,mut low) = self.get_class(reader)?;
        for _ in have..6 {
            low = (low << 1) | self.get_bit(reader)? as u16;
        }
        Ok((class << 6) | low)
'''),(A,'''    pub fn decode_position<R: Read>(&mut self,reader: &mut BufReader<R>)''','''    /// class, number of low bits that came with it, and these bits
    fn get_class<R: Read>(&mut self,reader: &mut BufReader<R>) -> Result<(u16,u8,u16),std::io::Error> {
        let first8 = self.get_byte(reader)?;
        let class = D_CODE[first8 as usize];
        let have = 8 - D_LEN[first8 as usize];
        Ok((class as u16,have,first8 as u16 & ((1 << have) - 1)))
    }
    pub fn decode_position<R: Read>(&mut self,reader: &mut BufReader<R>)''')]
EP='''        let i = (c >> 6) as usize;
        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
        // lower 6 bits verbatim
        self.put_code(6,(c & 0x3f) << 10,writer)
'''
R['b19']=[(A,EP,'''        let (upper,lower) = ((c / 64) as usize,c % 64);
        let len = P_LEN[upper] as u16;
        let code = ((P_CODE[upper] as u16) << 8) | (lower << (10 - len));
        self.put_code(len + 6,code,writer)
''')]
R['b20']=[(A,EP,'''        let i = (c >> 6) as usize;
        let parts: [(u16,u16);2] = [(P_LEN[i].into(),u16::from_be_bytes([P_CODE[i],0])),(6,c << 10)];
        for (n,code) in parts {
            self.put_code(n,code,writer)?;
        }
        Ok(())
''')]
GC='''        let mut ans: usize = 0;
        match self.ord {
            BitOrder::Msb0 => {
                for _i in 0..num_bits {
                    ans <<= 1;
                    ans |= self.get_bit(reader)? as usize;
                }    
            },
            BitOrder::Lsb0 => {
                for i in 0..num_bits {
                    ans |= (self.get_bit(reader)? as usize) << i;
                }    
            }
        }
'''
R['b21']=[(L,GC,'''        let mut ans: usize = 0;
        let msb = matches!(self.ord,BitOrder::Msb0);
        for i in 0..num_bits {
            let bit = self.get_bit(reader)? as usize;
            ans |= bit << if msb { num_bits - 1 - i } else { i };
        }
''')]
R['b22']=[(L,GC,'''        let ans = match self.ord {
            BitOrder::Msb0 => self.get_msb(num_bits,reader)?,
            BitOrder::Lsb0 => self.get_lsb(num_bits,reader)?
        };
'''),(L,'''    pub fn get_code<R: Read>(&mut self,num_bits: usize,reader''','''    fn get_msb<R: Read>(&mut self,num_bits: usize,reader: &mut BufReader<R>) -> Result<usize,std::io::Error> {
        let mut ans = 0;
        for _ in 0..num_bits {
            ans = 2*ans + self.get_bit(reader)? as usize;
        }
        Ok(ans)
    }
    fn get_lsb<R: Read>(&mut self,num_bits: usize,reader: &mut BufReader<R>) -> Result<usize,std::io::Error> {
        let mut ans = 0;
        let mut val = 1;
        for _ in 0..num_bits {
            if self.get_bit(reader)? > 0 {
                ans += val;
            }
            val *= 2;
        }
        Ok(ans)
    }
    pub fn get_code<R: Read>(&mut self,num_bits: usize,reader''')]
DL='''        let cpy = self.bits.clone();
        self.bits = BitVec::new();
        for i in self.ptr..cpy.len() {
            self.bits.push(cpy.get(i).unwrap());
        }
        self.ptr = 0;
'''
R['b23']=[(L,DL,'''        self.bits = self.bits.iter().skip(self.ptr).collect();
        self.ptr = 0;
'''),(A,DL,'''        let old = std::mem::take(&mut self.bits);
        let start = std::mem::replace(&mut self.ptr,0);
        self.bits.extend(old.iter().skip(start));
''')]
R['b24']=[(A,DL,'''        self.bits = self.bits.split_off(self.ptr);
        self.ptr = 0;
''')]
# a different representation of pending bits in the LZHUF port's decoder
GB_P='''        match self.bits.get(self.ptr) {
            Some(bit) => {
                self.ptr += 1;
                Ok(bit as u8)
            },
            None => {
                match bytes.next() {
                    Some(Ok(by)) => {
                        if self.bits.len()>512 {
                            self.drop_leading_bits();
                        }
                        self.bits.append(&mut BitVec::from_bytes(&[by]));
                        self.count += 1;
                        self.get_bit(bytes)
                    }
                    Some(Err(e)) => Err(e),
                    None => Ok(0)
                }
            }
        }
'''
R['b25']=[(P,GB_P,'''        loop {
            if let Some(bit) = self.bits.get(self.ptr) {
                self.ptr += 1;
                return Ok(if bit { 1 } else { 0 });
            }
            let by = match bytes.next().transpose()? {
                Some(by) => by,
                None => return Ok(0)
            };
            if self.bits.len() > 512 {
                self.drop_leading_bits();
            }
            for i in 0..8 {
                self.bits.push(by & (0x80 >> i) != 0);
            }
            self.count += 1;
        }
''')]
