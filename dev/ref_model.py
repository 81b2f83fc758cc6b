# behaviour-preserving edits around the adaptive model
L,H,P,A='src/lzss_huff.rs','src/direct_ports/lzhuf.rs','src/direct_ports/lzhuf.rs','src/tools/adaptive_huff.rs'
_eu='''        self.put_code(num_bits,code,writer)?;
        self.tree.update(c as i16); // TODO: why is input to update signed
        Ok(())'''
_du='''        c -= self.tree.node_count;
        self.tree.update(c as i16); // TODO: why is input to update signed
        Ok(c as i16)'''
_pu='''        self.put_code(j,i,writer)?;
        self.update(c as i16); // TODO: why is input to update signed
        Ok(())'''
_pd='''        c -= TAB_SIZE;
        self.update(c as i16); // TODO: why is input to update signed
        Ok(c as i16)'''
# e1: the code of a symbol in a function of its own
R['e1']=[(A,'''    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
''','''    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
        self.put_symbol(c,writer)?;
        self.tree.update(c as i16);
        Ok(())
    }
    fn put_symbol<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
'''),(A,_eu,'''        self.put_code(num_bits,code,writer)''')]
# e2: the update takes an index
R['e2']=[(A,'fn update(&mut self,c0: i16) {','fn update(&mut self,c0: usize) {'),(A,'self.symb_map[c0 as usize]','self.symb_map[c0]'),
 (A,_eu,_eu.replace('c as i16','c as usize')),(A,_du,_du.replace('update(c as i16)','update(c)'))]
# e3: the update before the bits go out
R['e3']=[(A,_eu,'''        self.tree.update(c as i16);
        self.put_code(num_bits,code,writer)'''),(H,_pu,'''        self.update(c as i16);
        self.put_code(j,i,writer)''')]
# e4: the symbol named
R['e4']=[(A,_du,'''        let symbol = (c - self.tree.node_count) as i16;
        self.tree.update(symbol);
        Ok(symbol)'''),(H,_pd,'''        let symbol = (c - TAB_SIZE) as i16;
        self.update(symbol);
        Ok(symbol)''')]
# e5: parts of the update in functions of their own
R['e5']=[(A,'''        if self.freq[self.root] == self.max_freq {
            self.rebuild_huff()
        }
''','''        self.make_room();
'''),(A,'''    /// increment frequency of given code by one, and update tree
''','''    fn make_room(&mut self) {
        if self.freq[self.root] == self.max_freq {
            self.rebuild_huff()
        }
    }
    fn count(&mut self,node: usize) -> usize {
        self.freq[node] += 1;
        self.freq[node]
    }
    /// increment frequency of given code by one, and update tree
'''),(A,'''            self.freq[c] += 1;
            k = self.freq[c];
''','''            k = self.count(c);
''')]
# e6: the symbol worked out twice
R['e6']=[(A,_du,'''        self.tree.update((c - self.tree.node_count) as i16);
        Ok((c - self.tree.node_count) as i16)''')]
# e7: room made by the callers, on both sides
R['e7']=[(A,'''        if self.freq[self.root] == self.max_freq {
            self.rebuild_huff()
        }
        // the leaf''','''        // the leaf'''),(A,_eu,_eu.replace('        self.tree.update','''        if self.tree.freq[self.tree.root] == self.tree.max_freq {
            self.tree.rebuild_huff();
        }
        self.tree.update''')),(A,_du,_du.replace('        self.tree.update','''        if self.tree.freq[self.tree.root] == self.tree.max_freq {
            self.tree.rebuild_huff();
        }
        self.tree.update'''))]
# e8: coder and decoder each with a function of their own around the update
R['e8']=[(A,_eu,'''        self.put_code(num_bits,code,writer)?;
        self.learn(c);
        Ok(())'''),(A,'''    pub fn encode_char<W''','''    fn learn(&mut self,c: u16) {
        self.tree.update(c as i16);
    }
    pub fn encode_char<W'''),(A,_du,'''        c -= self.tree.node_count;
        Ok(self.learn(c))'''),(A,'''    pub fn decode_char<R''','''    fn learn(&mut self,c: usize) -> i16 {
        let sym = c as i16;
        self.tree.update(sym);
        sym
    }
    pub fn decode_char<R''')]
# e9: coders made from the options
R['e9']=[(L,'AdaptiveHuffmanCoder::create(256 + opt.lookahead - opt.threshold)','AdaptiveHuffmanCoder::create(num_symbols(opt))'),
 (L,'AdaptiveHuffmanDecoder::create(256 + opt.lookahead - opt.threshold)','AdaptiveHuffmanDecoder::create(num_symbols(opt))'),
 (L,'''/// Main compression function''','''fn num_symbols(opt: &Options) -> usize {
    let longest = opt.lookahead - opt.threshold;
    longest + 256
}
/// Main compression function''')]
# e10: walking the tree in functions of the tree
R['e10']=[(A,'''        let mut c: usize = self.tree.son[self.tree.root];
''','''        let mut c: usize = self.tree.top();
'''),(A,'''            c = self.tree.son[c];
        }
        c -=''','''            c = self.tree.down(c);
        }
        c -='''),(A,'''    /// increment frequency of given code by one, and update tree
''','''    fn top(&self) -> usize {
        self.son[self.root]
    }
    fn down(&self,node: usize) -> usize {
        self.son[node]
    }
    fn leaf(&self,c: u16) -> usize {
        self.symb_map[c as usize]
    }
    /// increment frequency of given code by one, and update tree
'''),(A,'self.tree.symb_map[c as usize]','self.tree.leaf(c)')]
# e11: the coder's fields borrowed one by one
R['e11']=[(A,_du,'''        let tree = &mut self.tree;
        c -= tree.node_count;
        let sym = i16::try_from(c).unwrap_or(0);
        tree.update(sym);
        Ok(sym)'''),(H,'''        let mut c: usize = self.son[ROOT];
        // travel from root to leaf, choosing the smaller child node (son[])
        // if the read bit is 0, the bigger (son[]+1) if read bit is 1
        while c < TAB_SIZE {
            c += self.get_bit(bytes)? as usize;
            c = self.son[c];
        }
''','''        let mut c = ROOT;
        loop {
            c = self.son[c];
            if c >= TAB_SIZE {
                break;
            }
            c += self.get_bit(bytes)? as usize;
        }
''')]
