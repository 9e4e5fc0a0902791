#!/usr/bin/env python3
# Writes HrleCodecs.tla: the codec table of the specification, from the naming scheme of the codecs.
out=[]
def rec(name,fam,size=1,sym=False,lut=0,min=0,single=False,pref7=False,hdr=8):
    b=lambda x:"TRUE" if x else "FALSE"
    out.append('  %s |-> [fam |-> "%s", size |-> %d, sym |-> %s, lut |-> %d, min |-> %d, single |-> %s, pref7 |-> %s, hdr |-> %d]'%(name,fam,size,b(sym),lut,min,b(single),b(pref7),hdr))
rec("rle8_multi","plain",min=6,hdr=9)
rec("rle8_single","plain",min=4,single=True,hdr=10)
rec("rle8_packed_multi","packed",min=3,pref7=True,hdr=9)
rec("rle8_packed_single","packed",min=2,single=True,hdr=10)
rec("rle8_multi_short","short",min=3)
rec("rle8_single_short","short",min=2,single=True,hdr=9)
for l in (1,3,7):
    if l!=1: rec("rle8_%dsymlut"%l,"lut",lut=l,min=3)
    rec("rle8_%dsymlut_short"%l,"short",lut=l,min=2)
for bits in (16,24,32,48,64,128):
    z=bits//8
    for kind in ("sym","byte"):
        s=kind=="sym"; n="rle%d_"%bits
        rec(n+kind,"plain",z,s,min=z+4)
        rec(n+kind+"_packed","packed",z,s,min=3,pref7=not s)
        if bits==128: continue
        rec(n+kind+"_short","short",z,s,min=z+2)
        for l in (1,3,7):
            if l!=1: rec(n+"%dsymlut_%s"%(l,kind),"lut",z,s,l,3)
            rec(n+"%dsymlut_%s_short"%(l,kind),"short",z,s,l,2)
            if not s: rec(n+"%dsymlut_byte_short_greedy"%l,"short",z,s,l,2)
rec("rle8_sh","sh"); rec("rle8_mmtf128","mmtf",size=16)
for n in ("rle8_low_entropy","rle8_low_entropy_max","rle8_low_entropy_info"): rec(n,"le",min=255)
for n in ("rle8_low_entropy_short","rle8_low_entropy_short_max","rle8_low_entropy_short_info"): rec(n,"le",min=32)
for n in ("rle8_low_entropy_max_info","rle8_low_entropy_table","rle8_low_entropy_table_info"): rec(n,"le",min=255)
for n in ("rle8_low_entropy_short_all_info","rle8_low_entropy_short_table","rle8_low_entropy_short_table_info"): rec(n,"le",min=32)
rec("rle8m_any","lem",lut=0,min=255,hdr=12)
for k in (1,2,3,8,40): rec("rle8m_%d"%k,"lem",lut=k,min=255,hdr=12)
for n,f,z in (("mmtf128","mtf",16),("mmtf256","mtf",32),("bitmmtf8","delta",1),("bitmmtf16","delta",2)): rec(n,f,z,hdr=0)
print("----------------------------- MODULE HrleCodecs -----------------------------")
print("(* Generated by gen_codecs.py.  fam: stream family, size: symbol bytes, sym: runs are whole symbols,")
print("   lut: symbol cache slots (or sections), min: shortest run, single: one fixed symbol, pref7: 7 bit")
print("   copy lengths, hdr: header bytes. *)")
print("Codecs == [")
print(",\n".join(out)); print("]"); 
print("\\* parameterised codecs and compositions of building blocks, used by property C13 only")
print('Tables == {"rle8_low_entropy_table", "rle8_low_entropy_table_info", "rle8_low_entropy_short_table", "rle8_low_entropy_short_table_info"}')
print('Extra == Tables \\cup {"rle8_low_entropy_max_info", "rle8_low_entropy_short_all_info", "rle8m_any"}')
print("Offered == DOMAIN Codecs \\ Extra")
print("="*77)
