#!/usr/bin/env python3
"""Decodes the executable's .text with objdump into a table of memory operands for the engine."""
import re, struct, subprocess, sys
REG={}
for i,r in enumerate(["r8","r9","r10","r11","r12","r13","r14","r15","rdi","rsi","rbp","rbx","rdx","rax","rcx","rsp","rip"]): REG[r]=i
for b,i in list(REG.items()):
    pass
R32={"edi":8,"esi":9,"ebp":10,"ebx":11,"edx":12,"eax":13,"ecx":14,"esp":15}
for i in range(8,16): R32["r%dd"%i]=i-8
REG.update(R32)
def regsize(r):
    r=r.strip().lstrip('%')
    if re.match(r'ymm',r): return 32
    if re.match(r'xmm',r): return 16
    if re.match(r'zmm',r): return 64
    if re.match(r'r\d+b$|[abcd][lh]$|(si|di|sp|bp)l$',r): return 1
    if re.match(r'r\d+w$|[abcd]x$|(si|di|sp|bp)$',r): return 2
    if re.match(r'r\d+d$|e[abcd]x$|e(si|di|sp|bp)$',r): return 4
    if re.match(r'r\d+$|r[abcd]x$|r(si|di|sp|bp)$',r): return 8
    return 0
NONE,LOAD,STORE,RMW,LOCKED,FENCE,BULK=range(7)
SUF={'b':1,'w':2,'l':4,'q':8}
def split_ops(s):
    out=[];d=0;cur=''
    for c in s:
        if c=='(':d+=1
        if c==')':d-=1
        if c==',' and d==0: out.append(cur);cur=''
        else: cur+=c
    if cur: out.append(cur)
    return [x.strip() for x in out]
MEM=re.compile(r'^(?:%(fs|gs):)?(-?0x[0-9a-f]+|-?\d+)?\((?:%([a-z0-9]+))?(?:,%([a-z0-9]+)(?:,(\d))?)?\)$')
ABS=re.compile(r'^(?:%(fs|gs):)?(0x[0-9a-f]+)$')
def parse(mn,ops):
    """-> (kind,size,seg,base,index,scale,disp)"""
    mem=None;pos=-1
    for i,o in enumerate(ops):
        o=o.lstrip('*')
        m=MEM.match(o)
        if m:
            mem=m;pos=i;break
    if mem is None: return None
    seg=mem.group(1)
    disp=int(mem.group(2),0) if mem.group(2) else 0
    base=REG.get(mem.group(3),255) if mem.group(3) else 255
    index=REG.get(mem.group(4),255) if mem.group(4) and mem.group(4) not in('riz','eiz') else 255
    scale=int(mem.group(5)) if mem.group(5) else 1
    return pos,(1 if seg else 0),base,index,scale,disp
def size_of(mn,ops,pos):
    m=mn
    if m=='cmpxchg16b': return 16
    if m=='cmpxchg8b': return 8
    if re.match(r'v?mov(dqa|dqu|aps|ups|apd|upd|ntdq)(\d+)?$',m):
        for o in ops:
            if 'ymm' in o: return 32
            if 'zmm' in o: return 64
        return 16
    if re.match(r'v?movq$',m) and any('mm' in o for o in ops): return 8
    if re.match(r'v?movd$',m): return 4
    if re.match(r'v?mov[hl]p[sd]$',m): return 8
    if re.match(r'v?\w+ss$',m): return 4
    if re.match(r'v?\w+sd$',m) : return 8
    if re.match(r'f(ld|st|stp|add|sub|subr|mul|div|divr|com|comp)s$',m): return 4
    if re.match(r'f(ld|st|stp|add|sub|subr|mul|div|divr|com|comp)l$',m): return 8
    if m in('fldt','fstpt'): return 10
    if re.match(r'fi(ld|st|stp|sttp)(ll|q)$',m): return 8
    if re.match(r'fi(ld|st|stp)l?$',m): return 4
    if m in('fldcw','fnstcw'): return 2
    mz=re.match(r'mov([sz])([bwl])([wlq])$',m)
    if mz: return SUF[mz.group(2)]
    if m.startswith('movzb') or m.startswith('movsb'): return 1
    if m.startswith('movzw') or m.startswith('movsw'): return 2
    if m.startswith('movsl'): return 4
    if m.startswith('set'): return 1
    for j,o in enumerate(ops):
        if j!=pos:
            s=regsize(o)
            if s and not (m.startswith('sh') or m.startswith('sa') or m.startswith('ro')): return s
    if m[-1] in SUF: return SUF[m[-1]]
    return 8
def classify(line):
    line=line.split('#')[0].strip()
    line=re.sub(r'<[^>]*>','',line).strip()
    toks=line.split(None,1)
    lock=False;rep=False
    while toks and toks[0] in('lock','rep','repz','repnz','repe','repne','notrack','bnd','data16','cs','ds','es','rex.W','rex','xacquire','xrelease','addr32'):
        if toks[0]=='lock': lock=True
        if toks[0].startswith('rep'): rep=True
        if len(toks)<2: return (NONE,0,0,255,255,1,0)
        toks=toks[1].split(None,1)
    if not toks: return (NONE,0,0,255,255,1,0)
    mn=toks[0];ops=split_ops(toks[1]) if len(toks)>1 else []
    if mn in('mfence','cpuid','syscall','int','sfence') : return (FENCE,0,0,255,255,1,0)
    if mn in('pushfq','popfq','pushf','popf'): return (NONE,0,0,255,255,1,0)
    if mn.startswith('nop') or mn.startswith('lea') or mn.startswith('prefetch') or mn=='endbr64' or mn=='ud2': return (NONE,0,0,255,255,1,0)
    if re.match(r'(stos|movs|lods|cmps|scas)[bwlq]$',mn) and any('%ds:' in o or '%es:' in o for o in ops): return (BULK,8,0,255,255,1,0)
    p=parse(mn,ops)
    if p is None: return (NONE,0,0,255,255,1,0)
    pos,seg,base,index,scale,disp=p
    if seg: return (NONE,0,0,255,255,1,0)
    size=size_of(mn,ops,pos)
    last=pos==len(ops)-1
    if lock or mn.startswith('xchg'): k=LOCKED
    elif mn.startswith('cmpxchg') or mn.startswith('xadd'): k=RMW
    elif re.match(r'(cmp|test|push|call|jmp|v?comis|v?ucomis|bt[lqw]?$|ptest|vptest|fld|fild|fadd|fsub|fmul|fdiv|fcom|fucom|imul|mul|div|idiv|ldmxcsr|vldmxcsr)',mn): k=LOAD
    elif mn.startswith('pop'): k=STORE
    elif re.match(r'(fst|fist|fnst|stmxcsr|vstmxcsr|set)',mn): k=STORE
    elif not last: k=LOAD
    elif re.match(r'v?mov|vextract|pextr|vpextr',mn): k=STORE
    elif len(ops)==1 and not re.match(r'(inc|dec|neg|not|shl|shr|sar|sal|rol|ror|rcl|rcr)',mn): k=LOAD
    else: k=RMW
    return (k,size,1 if size==16 and not mn.startswith('v') else 0,base,index,scale,disp)
def main(exe,out):
    txt=subprocess.run(['objdump','-d','--no-show-raw-insn','-w','-j','.text',exe],capture_output=True,text=True,check=True).stdout
    ents=[];cache={}
    for l in txt.split('\n'):
        m=re.match(r'^\s*([0-9a-f]+):\t(.*)$',l)
        if not m: continue
        s=m.group(2)
        if s not in cache: cache[s]=classify(s)
        ents.append((int(m.group(1),16),cache[s]))
    # objdump prints rip-relative as disp(%rip) relative to next insn: convert to absolute using next address
    buf=bytearray()
    start=ents[0][0];end=ents[-1][0]+16
    buf+=struct.pack('<QQQ',start,end,len(ents))
    for i,(a,(k,sz,seg,b,x,sc,d)) in enumerate(ents):
        if b==REG['rip'] and i+1<len(ents):
            d=ents[i+1][0]+d; b=255
        buf+=struct.pack('<QBBBBBBxxq',a,k,sz,b,x,sc,seg,d)
    open(out,'wb').write(buf)
main(sys.argv[1],sys.argv[2])
