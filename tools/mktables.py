"""One-off: froze the reference copies of the codec tables (harness/tables.h) from the pinned commit. Never run by a check."""
import re,subprocess,sys
out=["/* Reference copies of the codec quantisation tables, frozen at the pinned commit 625a5cf. */","#ifndef TABLES_H","#define TABLES_H"]
for f in ["ambe3600x2450_const.h","ambe3600x2400_const.h","imbe7200x4400_const.h","mbelib_const.h"]:
    s=subprocess.run(["git","-C","/repo","show","625a5cf:src/internal/"+f],capture_output=True,text=True,check=True).stdout
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'//[^\n]*','',s)
    for m in re.finditer(r'static const (float|int|unsigned int|uint16_t|char) (\w+)((?:\[\d+\])+)\s*=\s*(\{.*?\});',s,flags=re.S):
        body=re.sub(r'\s+','',m.group(4))
        out.append("static const %s R_%s%s = %s;"%(m.group(1),m.group(2),m.group(3),re.sub(r',\}','}',body)))
s=subprocess.run(["git","-C","/repo","show","625a5cf:src/core/mbe_unvoiced_fft.c"],capture_output=True,text=True,check=True).stdout
s=re.sub(r'/\*.*?\*/','',s,flags=re.S); m=re.search(r'float Ws_synthesis\[211\] = (\{.*?\});',s,flags=re.S)
out.append("static const float R_Wuv[211] = %s;"%re.sub(r'\s+','',m.group(1)))
out.append("#endif")
open(sys.argv[1],"w").write("\n".join(out)+"\n")
