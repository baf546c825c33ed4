// C11, C14: three sources (compiled in one state, or to objects, or objects in an archive) define and use one name in every combination of
// bindings; every use must refer to the definition the C and ELF rules select, or the link must fail.
#include "c_common.h"
typedef int (*fn)(int);
static char text[4000]; static char *tp; static void P(const char*s){ tp=c_put(tp,s); } static void N(int i){ tp=c_num(tp,i); }
static U val[3][2]; static void V(int i,int j){ *tp++='('; tp=c_bits(tp,val[i][j],31,16,""); P("<<16|"); tp=c_bits(tp,val[i][j],15,0,""); P(")"); }
static const char*nm(const char*a,int i){ static char b[4][20]; static int k; char*p=b[k=(k+1)&3]; c_num(c_put(p,a),i); return p; }
#if MODE!=1
enum { none,use,strong,weak,tent,tentbig,priv,weakuse,alias,NK };
static int defines(int k){ return k==strong||k==alias; }
static void unit(int i,int k){ tp=text; *tp=0;
  switch(k){ case use: P("extern int qv[];"); break; case strong: P("int qv[2]={"); break; case weak: P("__attribute__((weak)) int qv[2]={"); break; case tent: P("int qv[2];"); break; case tentbig: P("int qv[6];"); break; case priv: P("static int qv[2]={"); break; case weakuse: P("extern int qv[] __attribute__((weak));"); break; case alias: P("int w"); N(i); P("[2]={"); }
  if(k==strong||k==weak||k==priv||k==alias){ V(i,0); P(","); V(i,1); P("};"); } if(k==alias){ P("extern int qv[2] __attribute__((alias(\"w"); N(i); P("\")));"); }
  P("int z"); N(i); P("[2]; int y"); N(i); P("=7; static int x=5; int gx"); N(i); P("(void){return x++;}"); if(k==none) return;
  P("int*adr"); N(i); P("(void){return qv;} int get"); N(i); P("(int k){return qv[k];} void set"); N(i); P("(int k,int x){qv[k]=x;} int*tab"); N(i); P("[2]={qv+1,qv}; int*last"); N(i); P("(void){return &qv[1];}"); }
#else
enum { none,use,strong,weak,priv,weakuse,alias,NK };
static int defines(int k){ return k==strong||k==alias; }
static void unit(int i,int k){ tp=text; *tp=0; P("static int c="); V(i,0); P(";");
  switch(k){ case use: P("int qf(int);"); break; case strong: P("int qf"); break; case weak: P("__attribute__((weak)) int qf"); break; case priv: P("static int qf"); break; case weakuse: P("extern int qf(int) __attribute__((weak));"); break; case alias: P("int w"); N(i); }
  if(k==strong||k==weak||k==priv||k==alias){ P("(int x){ return x+c;}"); } if(k==alias){ P("extern int qf(int) __attribute__((alias(\"w"); N(i); P("\")));"); }
  P("int y"); N(i); P("=7; static int x(void){return 5;} int gx"); N(i); P("(void){return x();}"); if(k==none) return;
  P("int call"); N(i); P("(int x){return qf(x);} int (*tab"); N(i); P("[2])(int)={qf,qf}; int (*adr"); N(i); P("(void))(int){return qf;}"); }
#endif
static int com, seq[3]={0,1,2}, nseq=3; static char f[3][20];
static void object(int i){ c_put(c_put(f[i],nm("/work/u",i)),".o"); TCCState*m=S, *o=tcc_new(); tcc_set_error_func(o,0,c_err); tcc_set_options(o,com?"-nostdlib -nostdinc -fcommon":"-nostdlib -nostdinc"); tcc_set_output_type(o,TCC_OUTPUT_OBJ); sx_assert(tcc_compile_string(o,text)==0,"a valid unit compiles"); sx_assert(tcc_output_file(o,f[i])==0,"the object is written"); tcc_delete(o); S=m; }
static int add(int i,int way){ if(way==0) return tcc_compile_string(S,text); object(i); return tcc_add_file(S,f[i]); }
#if MODE==2
// an archive of the last two units with a symbol index; it gives what is undefined so far
static unsigned char *be(unsigned char*p,unsigned v){ for(int i=3;i>=0;i--) *p++=v>>(8*i); return p; }
static char *hdr(char*p,const char*name,U size){ char*q=c_put(p,name); while(q<p+48) *q++=' '; q=c_num(q,size); while(q<p+58) *q++=' '; *q++='`'; *q++='\n'; return q; }
static int archive(int*k,const int*def,int*in,int ord,int pull){ static unsigned char b[20000]; static char names[200]; unsigned moff[8]; int mem[8]; char*q=names; int n=0; mnode*o[3]; for(int j=0;j<2;j++){ int i=ord?2-j:1+j; unit(i,k[i]); object(i); o[i]=mfs_find(f[i]);
    q=c_put(q,nm("y",i))+1; mem[n++]=i; if(def[i]){ q=c_put(q,"qv")+1; mem[n++]=i; } q=c_put(q,nm("gx",i))+1; mem[n++]=i; if(k[i]!=none){ q=c_put(q,nm("get",i))+1; mem[n++]=i; } }
  int il=4+4*n+(q-names); if(il&1) *q++=0, il++; unsigned at=8+60+il; for(int j=0;j<2;j++){ int i=ord?2-j:1+j; for(int e=0;e<n;e++) if(mem[e]==i) moff[e]=at; at+=60+o[i]->size+(o[i]->size&1); }
  char*p=c_put((char*)b,"!<arch>\n"); p=hdr(p,"/",il); p=(char*)be((unsigned char*)p,n); for(int e=0;e<n;e++) p=(char*)be((unsigned char*)p,moff[e]); memcpy(p,names,q-names); p+=q-names;
  for(int j=0;j<2;j++){ int i=ord?2-j:1+j; p=hdr(p,i==1?"u1.o/":"u2.o/",o[i]->size); memcpy(p,o[i]->data,o[i]->size); p+=o[i]->size; if(o[i]->size&1) *p++='\n'; }
  mfs_add("/work/libq.a",MT_FILE,b,p-(char*)b);
  // which members are needed: those that define what is undefined when their entry is looked at
  in[1]=in[2]=0; nseq=1; int again=1; while(again){ again=0; for(int e=0;e<n;e++){ int i=mem[e]; if(in[i]) continue; int qd=0,qu=0; for(int j=0;j<3;j++) if(in[j]){ qd|=def[j]; qu|=k[j]==use; } const char*s=names; for(int z=0;z<e;z++) s+=strlen(s)+1; int want=!strcmp(s,"qv")?qu&&!qd:!strcmp(s,"gx1")?pull:0; if(want) in[i]=1, again=1, seq[nseq++]=i; } }
  return tcc_add_file(S,"/work/libq.a"); }
#endif
void harness(void){ c_begin(); mfs_add("/work",MT_DIR,"",0); c_new(TCC_OUTPUT_MEMORY); int k[3],way[3],in[3]={1,1,1}; com=MODE==0||(MODE==2&&!TIER_QUICK)?sx_choose(2,"-fcommon"):0; if(com) tcc_set_options(S,"-fcommon"); int w=TIER_QUICK&&com?0:sx_choose(NWAY,"ways"); for(int i=0;i<3;i++){ k[i]=sx_choose(NK,"kind"); way[i]=w==0?0:w==1?1:w==2?i==1:i!=1; val[i][0]=sx_bits("value",32); val[i][1]=sx_bits("value",32); }
  int r=0; 
#if MODE==2
  for(int i=0;i<3;i++) if(k[i]==weakuse) sx_end(); int def[3]; for(int i=0;i<3;i++) def[i]=k[i]==strong||k[i]==alias||k[i]==weak||k[i]==tent||k[i]==tentbig; int k0=k[0], pull=sx_choose(2,"main uses the first unit"), ord=sx_choose(2,"order"); unit(0,k0); if(pull){ P("int gx1(void); int viagx1(void){return gx1();}"); } r=tcc_compile_string(S,text); r|=archive(k,def,in,ord,pull); 
  if(in[1]+in[2]==2) sx_cover("both"); else if(in[1]+in[2]==0) sx_cover("neither");
  for(int i=0;i<3;i++) if(!in[i]){ k[i]=none; sx_assert(tcc_get_symbol(S,nm("y",i))==0,"a member nobody needs is not linked"); }
#endif
  // what must happen
  int strongs=0,win=-1; for(int i=0;i<3;i++) if(defines(k[i])){ strongs++; win=i; }
#if MODE!=1
  int big=0,cm=0; for(int i=0;i<3;i++) if(k[i]==tent||k[i]==tentbig){ cm=1; if(k[i]==tentbig) big=1; } if(win<0&&!cm) for(int i=nseq-1;i>=0;i--) if(k[seq[i]]==weak) win=seq[i];
#else
  int cm=0; if(win<0) for(int i=nseq-1;i>=0;i--) if(k[seq[i]]==weak) win=seq[i];
#endif
  int undef=0; for(int i=0;i<3;i++) if(k[i]==use&&win<0&&!cm) undef=1;
#if MODE!=2
  for(int i=0;i<3;i++){ unit(i,k[i]); r|=add(i,way[i]); }
#endif
  if(r==0) r=tcc_relocate(S);
  if(strongs>1){ sx_assert(r!=0&&c_nerr>0,"two strong definitions make the link fail"); sx_cover("duplicate"); return; }
  if(undef){ sx_assert(r!=0&&c_nerr>0,"an undefined symbol makes the link fail"); sx_cover("undefined"); return; }
  sx_assert(r==0&&c_nerr==0,"a program with one definition links");
#if MODE!=1
  int *glob=0; if(win>=0||cm){ glob=tcc_get_symbol(S,"qv"); sx_assert(glob!=0,"the symbol is found by name"); }
  for(int i=0;i<3;i++) if(k[i]!=none){ int*a=((int*(*)(void))c_sym(nm("adr",i)))(); int**t=c_sym(nm("tab",i)); int*l=((int*(*)(void))c_sym(nm("last",i)))();
    sx_assert(t[1]==a&&t[0]==a+1&&l==a+1,"code and data of a unit refer to the same object"); 
    if(k[i]==priv){ sx_assert(a!=glob,"a static object is the unit's own"); for(int j=0;j<2;j++) sx_assert(((int(*)(int))c_sym(nm("get",i)))(j)==(int)val[i][j],"a static object has its own value"); }
    else if(!glob) sx_assert(a==0,"an undefined weak symbol is null"); else { sx_assert(a==glob,"all units refer to the same object"); { int j=sx_bits("index",1), e=((int(*)(int))c_sym(nm("get",i)))(j); sx_assert(e==(win<0?0:j?(int)val[win][1]:(int)val[win][0]),"the value of the selected definition"); } } }
  // a common object is as large as the largest of its declarations, and statics and neighbours are separate objects
  if(cm&&win<0) for(int i=0;i<3;i++) if(k[i]==tentbig){ void(*set)(int,int)=(void(*)(int,int))c_sym(nm("set",i)); for(int j=0;j<6;j++) set(j,100+j); { int j=sx_bits("index",3); sx_assume(j<6); sx_assert(((int(*)(int))c_sym(nm("get",i)))(j)==100+j,"the elements of a common object"); } sx_cover("common"); }
  for(int i=0;i<3;i++) if(in[i]){ int*z=c_sym(nm("z",i)); sx_assert(z[0]==0&&z[1]==0&&*(int*)c_sym(nm("y",i))==7,"the neighbours are objects of their own"); for(int j=0;j<2;j++) sx_assert(((int(*)(void))c_sym(nm("gx",i)))()==5+j,"static objects of the same name are separate"); }
#else
  fn glob=0; if(win>=0){ glob=(fn)tcc_get_symbol(S,"qf"); sx_assert(glob!=0,"the symbol is found by name"); } int x=(int)sx_bits("argument",32);
  for(int i=0;i<3;i++){ sx_assert(((int(*)(void))c_sym(nm("gx",i)))()==5&&*(int*)c_sym(nm("y",i))==7,"static functions of the same name are separate"); if(k[i]!=none){ fn a=((fn(*)(void))c_sym(nm("adr",i)))(); fn*t=c_sym(nm("tab",i)); 
    int wi=k[i]==priv?i:win; if(wi<0){ sx_assert(a==0&&t[0]==0&&t[1]==0,"an undefined weak function is null"); continue; }
    sx_assert(((int(*)(int))c_sym(nm("call",i)))(x)==(int)(x+(unsigned)val[wi][0]),"a call reaches the selected definition"); sx_assert(a(x)==(int)(x+(unsigned)val[wi][0]),"the address taken in code is that of the selected definition"); sx_assert(t[0](x)==(int)(x+(unsigned)val[wi][0])&&t[1]==t[0],"the address in data is that of the selected definition"); sx_assert(a==t[0]&&(k[i]==priv||a==glob),"a function has one address"); } }
#endif
  sx_cover("linked"); }
