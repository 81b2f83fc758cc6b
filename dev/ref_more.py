def var(k,base,*subs):
    f,o,n=R[base][0]
    for a,b in subs:
        assert a in n,a
        n=n.replace(a,b)
    R[k]=[(f,o,n)]+R[base][1:]
var('r6a','r6',("            self.bits.clear();\n",""))
var('r6b','r6',("            self.bits.clear();\n",""),("seek_relative(-1)","seek(SeekFrom::Current(-1))"))
var('r6c','r6',("            self.bits.clear();\n",""),("whole == self.bits.len()","self.bits.len() % 8 == 0"))
