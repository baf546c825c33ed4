// C12: seed programs with unknown bytes at any place, put in, written over or followed by the end of the text: the compiler ends with success or
// with a diagnostic, touches nothing outside its objects, and can be used again.
#include "c_common.h"
static const char*const SEED[]={
 "int f(int a,char*b){return a?b[a]:-1;}\n",
 "struct s{int a:3;struct s*n;}x={1,&x};\n",
 "#define M(a,b)a##b #a\nint M(x,1)=sizeof(\"q\");\n",
 "#if 1+(2&&defined X)\n#elif 0\n#else\n#endif\nint y;\n",
 "enum e{A,B=A+2};typedef int t[B];t v={[1]=A};\n",
 "void g(void){for(int i=0;i<3;i++)switch(i){case 1:break;default:goto l;}l:;}\n",
 "double d=1.5e3;long l=0x1fL;char c='\\x41',*s=\"a\\n\";\n",
 "int h(int n,...){__builtin_va_list p;__builtin_va_start(p,n);return _Generic(n,int:1,default:0);}\n",
 "#include \"h\"\n#pragma pack(1)\n#line 5 \"z\"\n__attribute__((aligned(8)))int q;\n",
 "int(*fp(int))(void),*ar[2][3];int k=sizeof(int(*)[4]);/*c*///d\n",
 "int u(){int x[]={1,2};return({int y=x[0];y;});}int w(n)int n;{return n;}\n",
 "asm(\".data\\n.long 1+2,x\\nx:.byte 3\\n\");\n",
 "void a(int x){asm(\"addl %1,%0\":\"=r\"(x):\"0\"(x):\"cc\");do x--;while(x>2);}\n",
 "#define V(f,...)f(__VA_ARGS__)\n#ifdef V\n#undef Q\nint z=V(sizeof,int);\n#endif\n",
};
// 1: unknown characters of an alphabet in templates
static const char*const T[]={ "@@@", "int @@@;\n", "int x=@@@;\n", "int f(@@@){}\n", "int f(){@@@}\n", "struct{@@@}x;\n", "int a[@@@];\n", "char*s=\"@@@\";\n", "int c='@@@';\n", "#@@@\n", "#if @@@\n#endif\n", "#define M@@@ M\nint M;\n", "#define M(a) @@@\nM(1)\n", "#define M(a,b)a##@b@@\nM(,)\n", "int x={@@@};\n", "struct s{int a,b;}x={@@@};\n", "int f(){return @@@1;}\n", "int f(int a){switch(a){@@@;}}\n", "typedef int t;t@@@;\n", "asm(\"@@@\");\n", "void f(){asm(\"\":@@@);}\n", "enum{@@@};\n", "int f(a@@@)int a;{}\n", "#include @@@\n", "__attribute__((@@@))int x;\n", "int x=_Generic(1,@@@);\n", "#line @@@\n", "void f(){if(1)@@@else;}\n", "#define V(...)__VA_ARGS__@#__VA_ARGS__\nV(@@)", "int f(){for(@@@);}\n", "int x=0@@@;\n", "int x=1@@@;\n", "/*@@@*/int x;\n","int x;//@@@\n" };
static int oneof(char c,const char*a){ int ok=0; for(;*a;a++) ok|=c==*a; return ok; }
static char text[400]; static int again=1;
static void try_(void){ sx_instlimit(60000000,1); if(sx_native()) sx_print(text,0); int r=tcc_compile_string(S,text); sx_assert(r==0||c_nerr>0,"a failure has a diagnostic"); sx_assert(r!=0||c_nerr==0,"an error makes the compilation fail"); if(r==0){ int e=tcc_relocate(S); sx_assert(e>=0||c_nerr>0,"a failure has a diagnostic"); sx_cover("accepted"); } else sx_cover("diagnosed");
  tcc_delete(S); if(again){ c_nerr=0; c_new(TCC_OUTPUT_MEMORY); sx_assert(tcc_compile_string(S,"#ifndef M\nstruct s { int a,b; }; static struct s v={3,4}; int run(int x){ return v.a*x+v.b; }\n#endif\n")==0&&c_nerr==0,"the compiler can be used again"); sx_assert(tcc_relocate(S)>=0,"the compiler can be used again"); void*run=tcc_get_symbol(S,"run"); sx_assert(run!=0&&((int(*)(int))run)(5)==19,"the compiler can be used again"); tcc_delete(S); sx_cover("again"); } }
void harness(void){ mfs_reset(); mfs_add("/work",MT_DIR,"",0); mfs_add("/work/h",MT_FILE,"int hh;\n",8); c_new(TCC_OUTPUT_MEMORY); tcc_add_include_path(S,"/work"); char*p=text;
#if MODE==0
  unsigned k=sx_choose(sizeof SEED/sizeof*SEED,"seed"); int n=strlen(SEED[k]), at=sx_choose(n,"place"), how=TIER_QUICK?(at+k)%3:sx_choose(3,"how"); int u=NU; char b[4]; for(int i=0;i<u;i++) b[i]=sx_u8("byte"); if(TIER_QUICK) sx_assume((b[0]==0)|oneof(b[0],"\1\t\n\f !\"#$%&'()*+,-./0189:;<=>?@aELepux[\\]^_`{|}~\x80\xff")); if(u>1) sx_assume(oneof(b[1],"\\\"'/*#\n({[,;=0eL.:")|(b[1]==0));
  // 0 written over, 1 put in, 2 followed by the end
  for(int i=0;i<at;i++) *p++=SEED[k][i]; for(int i=0;i<u;i++) *p++=b[i]; if(how<2) for(int i=at+(how==0?u:0);i<n;i++) *p++=SEED[k][i]; *p=0; again=(at&15)==(k&7);
#else
  unsigned k=sx_choose(sizeof T/sizeof*T,"template"); int u=0; for(const char*s=T[k];*s;s++) if(*s!='@') *p++=*s; else if(u++<NU){ char c=sx_u8("character"); sx_assume(oneof(c,"(){}[];,*&=#\"'\\\n0aL.:?-%<>!~^|+/ ")); *p++=c; } *p=0; again=0;
#endif
  try_(); }
