import os
T=['s8','s16','s32','s64','u8','u16','u32','u64']
def ct(t): return ('int' if t[0]=='s' else 'uint')+t[1:]+'_t'
def w(t): return int(t[1:])
def vec(t,q): return ('int' if t[0]=='s' else 'uint')+'%dx%d_t'%(w(t),(128 if q else 64)//w(t))
def n(t,q): return (128 if q else 64)//w(t)
def wide(t): return t[0]+str(2*w(t))
def nar(t): return t[0]+str(w(t)//2)
def U(t): return 'u'+t[1:]
def S(t): return 's'+t[1:]
O=[]
p=O.append
p('''/* The Arm Advanced SIMD intrinsics for integers, stated lane by lane after Arm's definitions (ACLE), so that the NEON sources run in the
 * simulator on any processor. Generated by gen_neon.py. Anything not listed here does not compile, and is never silently approximated. */
#ifndef LSIM_ARM_NEON_H
#define LSIM_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#define LSIM_NEON static inline __attribute__((always_inline, unused))
''')
for q in (0,1):
    for t in T: p('typedef %s %s __attribute__((vector_size(%d)));'%(ct(t),vec(t,q),16 if q else 8))
for q in (0,1):
    for t in T:
        for k in (2,3,4): p('typedef struct { %s val[%d]; } %sx%d_t;'%(vec(t,q),k,vec(t,q)[:-2],k))
p('/* names gcc for Arm predefines */')
for q in (0,1):
    for t in T: p('typedef %s __%s;'%(vec(t,q),vec(t,q).capitalize() if t[0]=='u' else vec(t,q).capitalize()))
def F(ret,name,args,body): p('LSIM_NEON %s %s(%s) { %s }'%(ret,name,args,body))
def loop(v,N,e): return '%s r; for (int i = 0; i < %d; i++) r[i] = %s; return r;'%(v,N,e)
def Q(q): return 'q' if q else ''
for q in (0,1):
  for t in T:
    V,N,C,B=vec(t,q),n(t,q),ct(t),w(t); x=Q(q); by=16 if q else 8
    UV,SV=vec(U(t),q),vec(S(t),q)
    sg=t[0]=='s'
    nm=lambda f: 'v%s%s_%s'%(f,x,t)
    F(V,nm('ld1'),'const %s *p'%C,'%s r; memcpy(&r, p, %d); return r;'%(V,by))
    F('void',nm('st1'),'%s *p, %s a'%(C,V),'memcpy(p, &a, %d);'%by)
    F(V,nm('ld1')[:-len(t)-1]+'_dup_'+t,'const %s *p'%C,loop(V,N,'*p'))
    F(V,'vld1%s_lane_%s'%(x,t),'const %s *p, %s a, const int k'%(C,V),'a[k] = *p; return a;')
    F('void','vst1%s_lane_%s'%(x,t),'%s *p, %s a, const int k'%(C,V),'*p = a[k];')
    for k in (2,3,4):
        X=V[:-2]+'x%d_t'%k
        F(X,'vld1%s_%s_x%d'%(x,t,k),'const %s *p'%C,'%s r; memcpy(&r, p, %d); return r;'%(X,by*k))
        F('void','vst1%s_%s_x%d'%(x,t,k),'%s *p, %s a'%(C,X),'memcpy(p, &a, %d);'%(by*k))
        F(X,'vld%d%s_%s'%(k,x,t),'const %s *p'%C,'%s r; for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) r.val[j][i] = p[%d * i + j]; return r;'%(X,N,k,k))
        F('void','vst%d%s_%s'%(k,x,t),'%s *p, %s a'%(C,X),'for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) p[%d * i + j] = a.val[j][i];'%(N,k,k))
    for f,o in (('add','+'),('sub','-'),('and','&'),('orr','|'),('eor','^')):
        F(V,nm(f),'%s a, %s b'%(V,V),'return (%s)((%s)a %s (%s)b);'%(V,UV,o,UV))
    F(V,nm('bic'),'%s a, %s b'%(V,V),'return a & ~b;')
    F(V,nm('orn'),'%s a, %s b'%(V,V),'return a | ~b;')
    if B<64: F(V,nm('mvn'),'%s a'%V,'return ~a;')
    for f in ('dup','mov'): F(V,'v%s%s_n_%s'%(f,x,t),'%s v'%C,loop(V,N,'v'))
    F(C,'vget%s_lane_%s'%(x,t),'%s a, const int k'%V,'return a[k];')
    F(V,'vset%s_lane_%s'%(x,t),'%s v, %s a, const int k'%(C,V),'a[k] = v; return a;')
    F(V,'vdup%s_lane_%s'%(x,t),'%s a, const int k'%vec(t,0),loop(V,N,'a[k]'))
    F(V,'vdup%s_laneq_%s'%(x,t),'%s a, const int k'%vec(t,1),loop(V,N,'a[k]'))
    F(V,'vext%s_%s'%(x,t),'%s a, %s b, const int k'%(V,V),loop(V,N,'i + k < %d ? a[i + k] : b[i + k - %d]'%(N,N)))
    F(V,nm('bsl'),'%s m, %s a, %s b'%(UV,V,V),'return (%s)((m & (%s)a) | (~m & (%s)b));'%(V,UV,UV))
    if N>1:
        H=N//2
        F(V,nm('zip1'),'%s a, %s b'%(V,V),'%s r; for (int i = 0; i < %d; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r;'%(V,H))
        F(V,nm('zip2'),'%s a, %s b'%(V,V),'%s r; for (int i = 0; i < %d; i++) { r[2 * i] = a[%d + i]; r[2 * i + 1] = b[%d + i]; } return r;'%(V,H,H,H))
        F(V,nm('uzp1'),'%s a, %s b'%(V,V),'%s r; for (int i = 0; i < %d; i++) { r[i] = a[2 * i]; r[%d + i] = b[2 * i]; } return r;'%(V,H,H))
        F(V,nm('uzp2'),'%s a, %s b'%(V,V),'%s r; for (int i = 0; i < %d; i++) { r[i] = a[2 * i + 1]; r[%d + i] = b[2 * i + 1]; } return r;'%(V,H,H))
        F(V,nm('trn1'),'%s a, %s b'%(V,V),'%s r; for (int i = 0; i < %d; i++) { r[2 * i] = a[2 * i]; r[2 * i + 1] = b[2 * i]; } return r;'%(V,H))
        F(V,nm('trn2'),'%s a, %s b'%(V,V),'%s r; for (int i = 0; i < %d; i++) { r[2 * i] = a[2 * i + 1]; r[2 * i + 1] = b[2 * i + 1]; } return r;'%(V,H))
        if B<64:
            X=V[:-2]+'x2_t'
            for f in ('zip','uzp','trn'): F(X,nm(f),'%s a, %s b'%(V,V),'%s r; r.val[0] = %s(a, b); r.val[1] = %s(a, b); return r;'%(X,nm(f+'1'),nm(f+'2')))
    for f,o in (('ceq','=='),('cgt','>'),('cge','>='),('clt','<'),('cle','<=')):
        F(UV,nm(f),'%s a, %s b'%(V,V),'return (%s)(a %s b);'%(UV,o))
        if sg or f=='ceq': F(UV,nm(f+'z'),'%s a'%V,'return (%s)(a %s (%s){0});'%(UV,o,V))
    F(UV,nm('tst'),'%s a, %s b'%(V,V),'return (%s)((a & b) != (%s){0});'%(UV,V))
    uc=ct(U(t))
    if B<64:
        F(V,nm('min'),'%s a, %s b'%(V,V),loop(V,N,'a[i] < b[i] ? a[i] : b[i]'))
        F(V,nm('max'),'%s a, %s b'%(V,V),loop(V,N,'a[i] > b[i] ? a[i] : b[i]'))
        mu='(%s)((uint64_t)%%s * (uint64_t)%%s)'%C
        F(V,nm('mul'),'%s a, %s b'%(V,V),loop(V,N,mu%('a[i]','b[i]')))
        F(V,nm('mla'),'%s a, %s b, %s c'%(V,V,V),loop(V,N,'(%s)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c[i])'%C))
        F(V,nm('mls'),'%s a, %s b, %s c'%(V,V,V),loop(V,N,'(%s)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c[i])'%C))
        if B>8:
            F(V,'vmul%s_n_%s'%(x,t),'%s a, %s b'%(V,C),loop(V,N,mu%('a[i]','b')))
            F(V,'vmla%s_n_%s'%(x,t),'%s a, %s b, %s c'%(V,V,C),loop(V,N,'(%s)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)c)'%C))
            F(V,'vmls%s_n_%s'%(x,t),'%s a, %s b, %s c'%(V,V,C),loop(V,N,'(%s)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)c)'%C))
        F(V,nm('abd'),'%s a, %s b'%(V,V),loop(V,N,'(%s)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])'%C))
        F(V,nm('aba'),'%s c, %s a, %s b'%(V,V,V),loop(V,N,'(%s)(c[i] + (a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i]))'%C))
        F(V,nm('hadd'),'%s a, %s b'%(V,V),loop(V,N,'(%s)(((int64_t)a[i] + b[i]) >> 1)'%C))
        F(V,nm('rhadd'),'%s a, %s b'%(V,V),loop(V,N,'(%s)(((int64_t)a[i] + b[i] + 1) >> 1)'%C))
        F(V,nm('hsub'),'%s a, %s b'%(V,V),loop(V,N,'(%s)(((int64_t)a[i] - b[i]) >> 1)'%C))
        lo,hi=('-((int64_t)1 << %d)'%(B-1),'((int64_t)1 << %d) - 1'%(B-1)) if sg else ('0','((int64_t)1 << %d) - 1'%B)
        sat='({ int64_t x = %%s; (%s)(x < %s ? %s : x > %s ? %s : x); })'%(C,lo,lo,hi,hi)
        F(V,nm('qadd'),'%s a, %s b'%(V,V),loop(V,N,sat%'(int64_t)a[i] + b[i]'))
        F(V,nm('qsub'),'%s a, %s b'%(V,V),loop(V,N,sat%'(int64_t)a[i] - b[i]'))
        # reductions
        F(C,nm('addv'),'%s a'%V,'uint64_t r = 0; for (int i = 0; i < %d; i++) r += (uint64_t)a[i]; return (%s)r;'%(N,C))
        F(C,nm('maxv'),'%s a'%V,'%s r = a[0]; for (int i = 1; i < %d; i++) r = a[i] > r ? a[i] : r; return r;'%(C,N))
        F(C,nm('minv'),'%s a'%V,'%s r = a[0]; for (int i = 1; i < %d; i++) r = a[i] < r ? a[i] : r; return r;'%(C,N))
        F(ct(wide(t)),nm('addlv'),'%s a'%V,'%s r = 0; for (int i = 0; i < %d; i++) r += a[i]; return r;'%(ct(wide(t)),N))
        F(vec(wide(t),q),nm('paddl'),'%s a'%V,loop(vec(wide(t),q),N//2,'(%s)a[2 * i] + a[2 * i + 1]'%ct(wide(t))))
        F(vec(wide(t),q),nm('padal'),'%s c, %s a'%(vec(wide(t),q),V),loop(vec(wide(t),q),N//2,'c[i] + (%s)a[2 * i] + a[2 * i + 1]'%ct(wide(t))))
        for f,e in (('padd','(%s)((uint64_t)%%s + (uint64_t)%%s)'%C),('pmax','%s > %s ? ({0}) : ({1})'),('pmin','%s < %s ? ({0}) : ({1})')):
            if f=='padd': ea=e%('a[2 * i]','a[2 * i + 1]'); eb=e%('b[2 * i]','b[2 * i + 1]')
            else:
                ea=(e%('a[2 * i]','a[2 * i + 1]')).replace('{0}','a[2 * i]').replace('{1}','a[2 * i + 1]'); eb=ea.replace('a[','b[')
            F(V,nm(f),'%s a, %s b'%(V,V),'%s r; for (int i = 0; i < %d; i++) { r[i] = %s; r[%d + i] = %s; } return r;'%(V,N//2,ea,N//2,eb))
        # bits
        if 1: F(V,nm('clz'),'%s a'%V,loop(V,N,'a[i] ? __builtin_clzll((unsigned long long)(%s)a[i]) - %d : %d'%(uc,64-B,B)))
        if B==8:
            F(V,nm('cnt'),'%s a'%V,loop(V,N,'__builtin_popcount((%s)a[i])'%uc))
            F(V,nm('rbit'),'%s a'%V,'%s r; for (int i = 0; i < %d; i++) { unsigned v = (%s)a[i], o = 0; for (int k = 0; k < 8; k++) o |= (v >> k & 1) << (7 - k); r[i] = (%s)o; } return r;'%(V,N,uc,C))
        for G in (16,32,64):
            if B<G: F(V,'vrev%d%s_%s'%(G,x,t),'%s a'%V,loop(V,N,'a[i ^ %d]'%(G//B-1)))
    else:
        F(C,nm('addv'),'%s a'%V,'uint64_t r = 0; for (int i = 0; i < %d; i++) r += (uint64_t)a[i]; return (%s)r;'%(N,C)) if q else None
        if q: F(V,nm('padd'),'%s a, %s b'%(V,V),'%s r; r[0] = a[0] + a[1]; r[1] = b[0] + b[1]; return r;'%V)
    if sg:
        F(V,nm('neg'),'%s a'%V,loop(V,N,'(%s)(0 - (uint64_t)a[i])'%C))
        F(V,nm('abs'),'%s a'%V,loop(V,N,'(%s)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i])'%C))
    # shifts: right by 1..width, left by 0..width-1; by a vector: the low byte, signed, negative shifts right
    sh='(%s)(k >= %d ? (%s) : (%%s >> k))'%(C,B,'%s < 0 ? -1 : 0' if sg else '0')
    def shr(e): return sh%((e,e) if sg else (e,))
    F(V,'vshr%s_n_%s'%(x,t),'%s a, const int k'%V,loop(V,N,shr('a[i]')))
    F(V,'vsra%s_n_%s'%(x,t),'%s c, %s a, const int k'%(V,V),loop(V,N,'(%s)((uint64_t)c[i] + (uint64_t)%s)'%(C,shr('a[i]'))))
    F(V,'vrshr%s_n_%s'%(x,t),'%s a, const int k'%V,loop(V,N,'(%s)((%s) + (a[i] >> (k - 1) & 1))'%(C,shr('a[i]'))))
    F(V,'vshl%s_n_%s'%(x,t),'%s a, const int k'%V,loop(V,N,'(%s)((uint64_t)a[i] << k)'%C))
    F(V,'vsli%s_n_%s'%(x,t),'%s a, %s b, const int k'%(V,V),loop(V,N,'(%s)(((uint64_t)b[i] << k) | ((uint64_t)a[i] & (((uint64_t)1 << k) - 1)))'%C))
    F(V,'vsri%s_n_%s'%(x,t),'%s a, %s b, const int k'%(V,V),loop(V,N,'(%s)(({ uint64_t m = k >= %d ? 0 : (%s)-1 >> k; ((uint64_t)a[i] & ~m) | ((k >= %d ? 0 : (uint64_t)((%s)b[i] >> k)) & m); }))'%(C,B,uc,B,uc)))
    F(V,nm('shl'),'%s a, %s b'%(V,SV),loop(V,N,'({ int s = (int8_t)b[i], k = -s; (%s)(s >= %d ? 0 : s >= 0 ? (uint64_t)a[i] << s : (uint64_t)%s); })'%(C,B,shr('a[i]'))))
  for t in T:
    for t2 in T:
        if t!=t2: F(vec(t,q),'vreinterpret%s_%s_%s'%(Q(q),t,t2),'%s a'%vec(t2,q),'return (%s)a;'%vec(t,q))
for t in T:
    D,V,C,N,B=vec(t,0),vec(t,1),ct(t),n(t,0),w(t); sg=t[0]=='s'
    F(D,'vcreate_'+t,'uint64_t a','%s r; memcpy(&r, &a, 8); return r;'%D)
    F(D,'vget_low_'+t,'%s a'%V,'%s r; memcpy(&r, &a, 8); return r;'%D)
    F(D,'vget_high_'+t,'%s a'%V,'%s r; memcpy(&r, (const char *)&a + 8, 8); return r;'%D)
    F(V,'vcombine_'+t,'%s l, %s h'%(D,D),'%s r; memcpy(&r, &l, 8); memcpy((char *)&r + 8, &h, 8); return r;'%V)
    if B<64:
        W,wc=vec(wide(t),1),ct(wide(t))
        u64='(%s)((uint64_t)%%s %s (uint64_t)%%s)'
        for f,e in (('addl','(%s)((uint64_t)(%s)a[i] + (uint64_t)(%s)b[i])'%(wc,wc,wc)),('subl','(%s)((uint64_t)(%s)a[i] - (uint64_t)(%s)b[i])'%(wc,wc,wc)),('mull','(%s)((uint64_t)(%s)a[i] * (uint64_t)(%s)b[i])'%(wc,wc,wc)),
                    ('abdl','(%s)(a[i] > b[i] ? (int64_t)a[i] - b[i] : (int64_t)b[i] - a[i])'%wc)):
            F(W,'v%s_%s'%(f,t),'%s a, %s b'%(D,D),loop(W,N,e))
            F(W,'v%s_high_%s'%(f,t),'%s a, %s b'%(V,V),'return v%s_%s(vget_high_%s(a), vget_high_%s(b));'%(f,t,t,t))
        if B>8:
            F(W,'vmull_n_%s'%t,'%s a, %s b'%(D,C),loop(W,N,'(%s)((uint64_t)(%s)a[i] * (uint64_t)(%s)b)'%(wc,wc,wc)))
        for f,o in (('mlal','+'),('mlsl','-')):
            F(W,'v%s_%s'%(f,t),'%s c, %s a, %s b'%(W,D,D),loop(W,N,'(%s)((uint64_t)c[i] %s (uint64_t)(%s)a[i] * (uint64_t)(%s)b[i])'%(wc,o,wc,wc)))
            F(W,'v%s_high_%s'%(f,t),'%s c, %s a, %s b'%(W,V,V),'return v%s_%s(c, vget_high_%s(a), vget_high_%s(b));'%(f,t,t,t))
        for f,o in (('addw','+'),('subw','-')):
            F(W,'v%s_%s'%(f,t),'%s a, %s b'%(W,D),loop(W,N,'(%s)((uint64_t)a[i] %s (uint64_t)(%s)b[i])'%(wc,o,wc)))
            F(W,'v%s_high_%s'%(f,t),'%s a, %s b'%(W,V),'return v%s_%s(a, vget_high_%s(b));'%(f,t,t))
        F(W,'vmovl_'+t,'%s a'%D,loop(W,N,'a[i]'))
        F(W,'vmovl_high_'+t,'%s a'%V,'return vmovl_%s(vget_high_%s(a));'%(t,t))
        F(W,'vshll_n_'+t,'%s a, const int k'%D,loop(W,N,'(%s)((uint64_t)(%s)a[i] << k)'%(wc,wc)))
        # narrowing, from wide(t) to t
        T2=wide(t)
        lo,hi=('-((int64_t)1 << %d)'%(B-1),'((int64_t)1 << %d) - 1'%(B-1)) if sg else ('0','((uint64_t)1 << %d) - 1'%B)
        F(D,'vmovn_'+T2,'%s a'%W,loop(D,N,'(%s)a[i]'%C))
        F(V,'vmovn_high_'+T2,'%s l, %s a'%(D,W),'return vcombine_%s(l, vmovn_%s(a));'%(t,T2))
        F(D,'vshrn_n_'+T2,'%s a, const int k'%W,loop(D,N,'(%s)(a[i] >> k)'%C))
        F(V,'vshrn_high_n_'+T2,'%s l, %s a, const int k'%(D,W),'return vcombine_%s(l, vshrn_n_%s(a, k));'%(t,T2))
        F(D,'vrshrn_n_'+T2,'%s a, const int k'%W,loop(D,N,'(%s)((a[i] >> k) + (a[i] >> (k - 1) & 1))'%C))
        F(D,'vqmovn_'+T2,'%s a'%W,loop(D,N,('(%s)(a[i] < %s ? %s : a[i] > %s ? %s : a[i])'%(C,lo,lo,hi,hi)) if sg else '(%s)(a[i] > %s ? %s : a[i])'%(C,hi,hi)))
        if sg:
            uc=ct(U(t)); h='((int64_t)1 << %d) - 1'%B
            F(vec(U(t),0),'vqmovun_'+T2,'%s a'%W,loop(vec(U(t),0),N,'(%s)(a[i] < 0 ? 0 : a[i] > %s ? %s : a[i])'%(uc,h,h)))
        F(D,'vaddhn_'+T2,'%s a, %s b'%(W,W),loop(D,N,'(%s)((%s)((uint64_t)a[i] + (uint64_t)b[i]) >> %d)'%(C,ct(U(T2)),B)))
        F(D,'vsubhn_'+T2,'%s a, %s b'%(W,W),loop(D,N,'(%s)((%s)((uint64_t)a[i] - (uint64_t)b[i]) >> %d)'%(C,ct(U(T2)),B)))
for t,B in (('s16',16),('s32',32)):
    for q in (0,1):
        V,N,C=vec(t,q),n(t,q),ct(t)
        mx='((int64_t)1 << %d) - 1'%(B-1)
        F(V,'vqdmulh%s_%s'%(Q(q),t),'%s a, %s b'%(V,V),loop(V,N,'({ int64_t x = ((int64_t)a[i] * b[i]) >> %d; (%s)(x > %s ? %s : x); })'%(B-1,C,mx,mx)))
        F(V,'vqrdmulh%s_%s'%(Q(q),t),'%s a, %s b'%(V,V),loop(V,N,'({ int64_t x = ((int64_t)a[i] * b[i] + ((int64_t)1 << %d)) >> %d; (%s)(x > %s ? %s : x); })'%(B-2,B-1,C,mx,mx)))
p('/* table lookup: an index outside the table gives 0 (tbl) or leaves the lane (tbx) */')
for t in ('u8','s8'):
    for q in (0,1):
        V,I,N=vec(t,q),vec('u8',q),n(t,q)
        F(V,'vqtbl1%s_%s'%(Q(q),t),'%s t, %s idx'%(vec(t,1),I),loop(V,N,'idx[i] < 16 ? t[idx[i]] : 0'))
        F(V,'vqtbx1%s_%s'%(Q(q),t),'%s d, %s t, %s idx'%(V,vec(t,1),I),loop(V,N,'idx[i] < 16 ? t[idx[i]] : d[i]'))
        for k in (2,3,4):
            X=vec(t,1)[:-2]+'x%d_t'%k
            F(V,'vqtbl%d%s_%s'%(k,Q(q),t),'%s t, %s idx'%(X,I),loop(V,N,'idx[i] < %d ? t.val[idx[i] / 16][idx[i] %% 16] : 0'%(16*k)))
            F(V,'vqtbx%d%s_%s'%(k,Q(q),t),'%s d, %s t, %s idx'%(V,X,I),loop(V,N,'idx[i] < %d ? t.val[idx[i] / 16][idx[i] %% 16] : d[i]'%(16*k)))
    D=vec(t,0)
    F(D,'vtbl1_'+t,'%s t, %s idx'%(D,D),loop(D,8,'(uint8_t)idx[i] < 8 ? t[(uint8_t)idx[i]] : 0'))
p('#endif')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'arm_neon.h'), 'w').write('\n'.join(O)+'\n')
