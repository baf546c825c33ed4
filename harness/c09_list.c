// C09: every short list of designated and plain initialisers of two nested types, static and automatic, against the standard's rule for the current object.
#include "c_common.h"
// the tree of a type: leaves are numbered in order
typedef struct nd { int n; const struct nd*k; const char*const*nm; } nd; // n: children (0: leaf); k: n children, or one for an array (nm null)
static const nd leaf={0,0,0}; static const nd W={2,&leaf,0}; static const nd SK[]={{0,0,0},{2,&leaf,0}}; static const char*const SN[]={"c","w"}; static const nd Sn={2,SK,SN}; static const nd TK[]={{0,0,0},{3,&leaf,0},{2,&Sn,0},{0,0,0}}; static const char*const TN[]={"a","v","s","z"}; static const nd Tn={4,TK,TN};
static const nd IK[]={{0,0,0},{0,0,0}}; static const char*const IN[]={"q","r"}; static const nd Q2={2,&leaf,0}; static const nd UK[]={{0,0,0},{2,IK,IN},{2,&Q2,0}}; static const char*const UN_[]={"p","","t"}; static const nd Un={3,UK,UN_}; static const nd Vn={2,&Un,0};
typedef struct { int a; short v[3]; struct { char c; int w[2]; } s[2]; int z; } T; typedef struct { int p; struct { short q; char r; }; int t[2][2]; } U1; typedef U1 V[2]; typedef struct { int *a, *v[3]; struct { int *c, *w[2]; } s[2]; int *z; } PT;
#define TXT "typedef struct { int a; short v[3]; struct { char c; int w[2]; } s[2]; int z; } T; typedef struct { int p; struct { short q; char r; }; int t[2][2]; } V[2]; typedef struct { int *a, *v[3]; struct { int *c, *w[2]; } s[2]; int *z; } P; extern int g[8]; "
static const nd*kid(const nd*d,int i){ return d->nm?d->k+i:d->k; }
static int leaves(const nd*d){ if(!d->n) return 1; if(!d->nm) return d->n*leaves(d->k); int s=0; for(int i=0;i<d->n;i++) s+=leaves(d->k+i); return s; }
static int base(const nd*d,int i){ if(!d->nm) return i*leaves(d->k); int s=0; for(int j=0;j<i;j++) s+=leaves(d->k+j); return s; }
static L want[40]; static int sel[40]; // value index of each leaf, -1: zero
// a position: the path from the root of the braces to the next object to initialise; done: none left
typedef struct { const nd*d[8]; int i[8], depth, done, at; } pos;
static void succ(pos*p){ while(p->depth){ int t=p->depth-1; if(p->i[t]+1<p->d[t]->n){ p->at+=leaves(kid(p->d[t],p->i[t])); p->i[t]++; return; } p->at-=base(p->d[t],p->i[t]); p->depth--; } p->done=1; }
static void down(pos*p,const nd*cur,int i){ p->d[p->depth]=cur; p->i[p->depth++]=i; p->at+=base(cur,i); }
static const nd*cur(const pos*p,const nd*root){ return p->depth?kid(p->d[p->depth-1],p->i[p->depth-1]):root; }
static void zero(int at,int n){ for(int i=0;i<n;i++) sel[at+i]=-1; }
static void store(pos*p,const nd*root,int v){ const nd*d; while((d=cur(p,root))->n) down(p,d,0); sel[p->at]=v; succ(p); }
static void brace(const nd*d,int at,int n,const int*v,int*bad){ pos p; memset(&p,0,sizeof p); p.at=at; zero(at,leaves(d)); if(!d->n){ if(n!=1) *bad=1; else sel[at]=v[0]; return; } down(&p,d,0); for(int i=0;i<n;i++){ if(p.done){ *bad=1; return; } store(&p,d,v[i]); } }
static char init[400]; static char*ip=init;
static const char*const DT[]={"","a","v[1]","v","s[0]","s[1]","s[0].w[1]","s[1].w","z","v[0 ... 1]","s","s[1].c"}, *const DV[]={"","[0].p","[1].q","[1]","[0].t","[0].t[1]","[0].t[1][0]","[1].t[0][1]","[0].r","[0 ... 1]","[0].t[0 ... 1]","[0]"};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned ty=sx_choose(3,"type"); const nd*root=ty==1?&Vn:&Tn; int nl=leaves(root); zero(0,nl); L val[3]; for(int i=0;i<3;i++) val[i]=ty==2?0:sx_u64("value");
  pos p; memset(&p,0,sizeof p); down(&p,root,0); ip=c_put(ip,"{"); int vi=0, bad=0; int items=3;
  for(int it=0;it<items;it++){ unsigned dk=sx_choose(12,"designator"); if(TIER_QUICK&&it==2&&dk) sx_end(); unsigned sh=sx_choose(TIER_QUICK&&it==2?1:4,"shape"); const char*d=(ty==1?DV:DT)[dk]; int hi=-1;
    if(*d){ pos q; memset(&q,0,sizeof q); const char*s=d; const nd*c=root; if(ty!=1) ip=c_put(ip,"."); ip=c_put(ip,d); ip=c_put(ip,"=");
      while(*s){ if(*s=='.') s++; if(*s=='['){ int i=s[1]-'0'; s+=2; if(*s==' '){ hi=s[5]-'0'; s+=6; } s++; down(&q,c,i); c=kid(c,i); } else { char m=*s++; int i=0; for(;i<c->n&&c->nm[i][0]!=m;i++) ; if(i==c->n){ down(&q,c,1); c=kid(c,1); for(i=0;c->nm[i][0]!=m;i++) ; } down(&q,c,i); c=kid(c,i); } } p=q; }
    if(p.done) sx_end(); const nd*c=cur(&p,root); if(hi>=0&&sh==0&&c->n) sx_end(); // a range of aggregates continued without braces means nothing portable
    char nm[3]={'A'+vi%3,0,0}; int v[2]={vi%3,(vi+1)%3}; if(sh==0){ ip=c_put(ip,nm); vi++; } else { ip=c_put(ip,"{"); if(sh>=2-0) { ip=c_put(ip,nm); vi++; } else if(1) { if(sh==1&&!c->n){ sx_end(); } } if(sh==3){ ip=c_put(ip,","); nm[0]='A'+vi%3; ip=c_put(ip,nm); vi++; } ip=c_put(ip,"}"); }
    int n=sh==0?1:sh==1?0:sh-1; int lo=p.depth?p.i[p.depth-1]:0;
    for(int r=lo;;r++){ if(sh==0){ pos q=p; store(&q,root,v[0]); if(hi<0||r==hi){ p=q; break; } } else { brace(c,p.at,n,v,&bad); pos q=p; succ(&q); if(hi<0||r==hi){ p=q; break; } } if(hi>=0){ p.i[p.depth-1]++; p.at+=leaves(c); } }
    if(bad) sx_end(); if(it+1<items) ip=c_put(ip,","); }
  ip=c_put(ip,"}"); static char text[4000]; char*t=c_put(text,TXT); const char*tn=ty==0?"T":ty==1?"V":"P"; if(sx_native()) sx_print(init,ty);
  t=c_put(t,"static void dirty(int v){ volatile char b[300]; for(int i=0;i<300;i++) b[i]=v; } void*memset(void*d,int c,unsigned long n){ char*a=d; while(n--) *a++=c; return d; } void*memcpy(void*d,const void*s,unsigned long n){ char*a=d; const char*b=s; while(n--) *a++=*b++; return d; } void*memmove(void*d,const void*s,unsigned long n){ return memcpy(d,s,n); }\n"); t=c_put(t,ty==2?"void au(char*o,int*A,int*B,int*C){ dirty(90); ":"void au(char*o,long long A,long long B,long long C){ dirty(90); "); t=c_put(t,tn); t=c_put(t," x="); t=c_put(t,init); t=c_put(t,"; memcpy(o,(char*)&x,sizeof x); }\n");
  for(int i=0;i<3;i++){ t=c_put(t,"#define "); *t++='A'+i; if(ty==2) { t=c_put(t," (g+"); t=c_num(t,i+1); t=c_put(t,")\n"); } else { t=c_put(t," ((long long)"); t=c_bin(t,val[i],"LL"); t=c_put(t,")\n"); } } t=c_put(t,"int pre=0x5a5a; "); t=c_put(t,tn); t=c_put(t," st="); t=c_put(t,init); t=c_put(t,"; int post=0x5a5a; int g[8];\n");
  c_compile(text); c_load(); static union { T t; V v; PT p; char b[200]; } o; int*gg=0; if(ty==2){ gg=c_sym("g"); for(int i=0;i<3;i++) val[i]=(L)(gg+i+1); } void*ob[2]={c_sym("st"),&o}; ((void(*)(void*,L,L,L))c_sym("au"))(&o,val[0],val[1],val[2]);
  for(int j=0;j<2;j++){ L g[40]; int k=0; if(ty==2){ PT*x=ob[j]; g[k++]=(L)x->a; for(int i=0;i<3;i++) g[k++]=(L)x->v[i]; for(int i=0;i<2;i++){ g[k++]=(L)x->s[i].c; g[k++]=(L)x->s[i].w[0]; g[k++]=(L)x->s[i].w[1]; } g[k++]=(L)x->z; } else if(ty){ U1*x=ob[j]; for(int i=0;i<2;i++){ g[k++]=x[i].p; g[k++]=x[i].q; g[k++]=x[i].r; for(int a=0;a<4;a++) g[k++]=x[i].t[a/2][a%2]; } } else { T*x=ob[j]; g[k++]=x->a; for(int i=0;i<3;i++) g[k++]=x->v[i]; for(int i=0;i<2;i++){ g[k++]=x->s[i].c; g[k++]=x->s[i].w[0]; g[k++]=x->s[i].w[1]; } g[k++]=x->z; }
    int ok=1; for(int i=0;i<nl;i++){ L w=sel[i]<0?0:val[sel[i]]; int r=i%7; if(ty==2) ; else if(ty) w= r==1?(short)w:r==2?(signed char)w:(int)w; else w= i>=1&&i<=3?(short)w:i==4||i==7?(signed char)w:(int)w; if(sx_native()&&g[i]!=w) sx_print("leaf",i), sx_print("want",w), sx_print("got",g[i]); ok&=g[i]==w; } sx_assert(ok,c_msgf(j?"automatic":"static","every member has the value the list gives it, the others are zero")); }
  sx_assert(*(int*)c_sym("pre")==0x5a5a&&*(int*)c_sym("post")==0x5a5a,"the objects beside it are untouched"); sx_cover("end"); }
