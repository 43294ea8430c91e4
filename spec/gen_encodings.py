import sys,struct
lo,hi,out=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
with open(out,'w') as f:
    for p in range(lo,hi):
        w=(p<<10)|0xA3
        f.write('0x%02x 0x%02x 0x%02x 0x%02x\n'%(w&255,(w>>8)&255,(w>>16)&255,w>>24))
