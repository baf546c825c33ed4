// D08: -l names resolve to the right file in search order.
#include "d_common.h"
#ifndef LA
#define LA 2
#endif
static const char*dirs[12]; static char ldir[1200]; static int nd; static char want[8][1300]; static int nwant, missing, nl; static char nm[3][240];
static int ep(int c,char**v){ prog_runs++; return 0; }
static const char *alldirs[]={"/w","/w/la","/w/lb","/opt/x","/s1","/s2","/s3"};
#if MODE!=1
static void reference(void){ for(int l=0;l<nl;l++){ int hit=0; for(int i=0;i<nd&&!hit;i++){ char p[1400]; strcpy(p,dirs[i]); strcat(p,"/lib"); strcat(p,nm[l]); strcat(p,".so"); mnode*m=mfs_find_follow(p); if(m&&m->type==MT_FILE){ strcpy(want[nwant++],m->path); hit=1; } } if(!hit) missing++; } }
static void final(int code){
  int a=count(E_ADDFILE); sx_assert(a==nwant,"exactly one file is linked for each library that is found"); for(int i=0;i<nwant;i++){ const char*g=nth(E_ADDFILE,i)->a; mnode*m=mfs_find_follow(g); sx_assert(m&&!strcmp(m->path,want[i]),"a library resolves to the file in the first search directory that has it"); sx_assert(g[0]=='/'&&mfs_find(g)&&1,"a library is linked by its absolute path"); }
  for(int i=0;i<nev;i++) if(evs[i].kind==E_RELOC||evs[i].kind==E_OUTFILE) for(int j=i;j<nev;j++) sx_assert(evs[j].kind!=E_ADDFILE,"libraries are loaded before linking");
  if(missing){ sx_assert(err_has("Library not found: lib"),"a missing library is reported"); sx_cover("missing"); } else { sx_assert(!err_has("Library not found"),"a library that is found is not reported missing"); sx_cover(nwant>1?"several":"found"); } }
static int entries; static void entry(const char*dir,const char*name,unsigned st){ // st: 0 none 1 file 2 relative link 3 absolute link 4 dangling 5 link chain 6 directory 7 short file
  char p[1400], q[1400]; strcpy(p,dir); strcat(p,"/lib"); strcat(p,name); strcat(p,".so"); static const char E[]="\177ELF............"; if(mfs_find(p)) return; strcpy(q,dir); int k=strlen(q); strcpy(q+k,"/real0.so"); q[k+5]='0'+entries++;
  switch(st){ case 0: return; case 1: mfs_add(p,MT_FILE,E,16); return; case 2: mfs_add(p,MT_LINK,q+k+1,0); mfs_add(q,MT_FILE,E,16); return; case 3: mfs_add(p,MT_LINK,q,0); mfs_add(q,MT_FILE,E,16); return; case 4: mfs_add(p,MT_LINK,"nothing",0); return; case 5: { char r[1400]; strcpy(r,q); r[k+1]='m'; mfs_add(p,MT_LINK,r+k+1,0); mfs_add(r,MT_LINK,q,0); mfs_add(q,MT_FILE,E,16); return; } case 6: mfs_add(p,MT_DIR,0,0); return; default: mfs_add(p,MT_FILE,"\177ELF\2\xff",6); return; } }
#else
static char exp1[60000]; static size_t en; static int np; static const char*conf; static size_t confn; static int place;
static void addline(const char*s,size_t n){ exp1[en++]='+'; exp1[en++]=' '; if(n>2037) n=2037; memcpy(exp1+en,s,n); en+=n; exp1[en++]='\n'; np++; }
static void refconf(const char*d,size_t n,size_t lim){ size_t b=0; while(b<n){ size_t e=b; while(e<n&&d[e]!='\n') e++; if(d[b]=='/'&&e-b<lim) addline(d+b,e-b); b=e+1; } }
static int matches(size_t lim){ en=0; np=0; addline("/w",2); if(place==2){ addline("/s9",3); addline("/first",6); refconf(conf,confn,lim); addline("/last",5); } else if(place==1) refconf(conf,confn,lim);
  char h[40]="Library paths ("; int k=strlen(h); if(np>=10) h[k++]='0'+np/10; h[k++]='0'+np%10; strcpy(h+k,")\n"); size_t l=strlen(h); mcap*c=&m_cap[2]; for(size_t i=0;i+l+en<=c->n;i++) if(c->p[i]=='L'&&!memcmp(c->p+i,h,l)){ int same=1; for(size_t j=0;same&&j<en;j++) same=c->p[i+l+j]==exp1[j]; if(same&&(i+l+en==c->n||c->p[i+l+en]!='+')) return 1; } return 0; }
// a line longer than the tool's path buffer is left out as a whole; the buffer has at least 500 and at most 4096 bytes
static void final(int code){ static const size_t T[]={4096,4095,4097,1023,1024,1022,1025,2048,511,510,512,513,500}; int ok=0; for(int i=0;i<13&&!ok;i++){ ok=matches(T[i]); if(confn<500) break; }
  sx_assert(ok,"the search directories are the current one and exactly the absolute paths of the configuration lists, in order"); sx_assert(code==0,"the status is shown"); sx_cover(np>3?"many":"few"); }
#endif
void harness(void){ base_fs(); sx_instlimit(100000000,1); ep_sym=(void*)ep; m_forkres=4242; m_waitret=4242; mfs_autodir=1; mfs_add("/w/a.c",MT_FILE,"int a;\n",7); const char*w[14]={"cjit","-q"}; int n=2;
#if MODE==0 // where a library is
  for(int i=1;i<7;i++) mfs_add(alldirs[i],MT_DIR,0,0); mfs_add("/etc/ld.so.conf",MT_FILE,"include x\n/s1\n",14); mfs_add("/etc/ld.so.conf.d/b.conf",MT_FILE,"/s3\n",4); mfs_add("/etc/ld.so.conf.d/a.conf",MT_FILE,"# c\n/s2\n",8);
  nl=1; int len=1+sx_choose(LA,"len"); for(int i=0;i<len;i++){ nm[0][i]=sx_u8("name"); sx_assume(nm[0][i]!=0&&nm[0][i]!='/'); } if(sx_choose(2,"two")){ nl=2; strcpy(nm[1],"zz"); sx_assume(strcmp(nm[0],"zz")); }
  unsigned ord=sx_choose(4,"L"); if(ord==1){ w[n++]="-Lla"; dirs[nd++]="/w/la"; } if(ord==2){ w[n++]="-L"; w[n++]="./lb"; dirs[nd++]="/w/lb"; w[n++]="-L"; w[n++]="/w/la/"; dirs[nd++]="/w/la"; } if(ord==3){ w[n++]="-L/opt/x"; dirs[nd++]="/opt/x"; w[n++]="-L.."; dirs[nd++]="/"; }
  if(sx_choose(2,"before")) { w[n++]="a.c"; w[n++]="-l"; w[n++]=nm[0]; if(nl==2) w[n++]="-lzz"; } else { char*a=malloc(40); strcpy(a,"-l"); strcat(a,nm[0]); w[n++]=a; if(nl==2) w[n++]="-lzz"; w[n++]="a.c"; }
  dirs[nd++]="/w"; dirs[nd++]="/s1"; dirs[nd++]="/s2"; dirs[nd++]="/s3";
  // two of the directories hold something under the name, the second library is in one place
  unsigned d1=sx_choose(nd,"d1"), d2=sx_choose(nd,"d2"); if(d2<d1) sx_end(); if(nl==2&&d1!=d2&&TIER_QUICK) sx_end(); unsigned s1=sx_choose(8,"s1"); entry(dirs[d1],nm[0],s1); if(d2>d1) entry(dirs[d2],nm[0],1+sx_choose(3,"s2")); if(nl==2) entry(dirs[sx_choose(nd,"dz")],"zz",sx_choose(3,"sz")==1?2:1);
#elif MODE==1 // what the configuration lists contribute
  unsigned f=sx_choose(3,"form"); static char a[10000]; size_t k=0;
  if(f==0){ int len=sx_choose(LA+1,"len"); for(int i=0;i<len;i++){ a[k]=sx_u8("conf"); sx_assume(a[k]!=0); k++; } if(sx_choose(2,"more")){ memcpy(a+k,"\n/s1\n/t",7); k+=7; } }
  else if(f==1){ static const int L[]={490,509,510,511,512,513,1021,1022,1023,1024,1025,2046,2047,4094,4095,4096,8190,8191}; int len=L[sx_choose(18,"long")]; a[k++]='/'; for(int i=1;i<len;i++) a[k++]='a'+i%26; int q[]={1,510,511,512,1022,1023,4095}; int p=q[sx_choose(7,"pos")]; if(p<len){ char c=sx_u8("c"); sx_assume(c!=0); a[p]=c; } if(sx_choose(2,"eol")){ memcpy(a+k,"\n/s1\n",5); k+=5; } }
  else { for(int i=0;i<(TIER_QUICK?3:4);i++){ static const char*P[]={"/p","\n","x/","/","# /c"," /d"}; const char*s=P[sx_choose(6,"word")]; memcpy(a+k,s,strlen(s)); k+=strlen(s); if(sx_choose(2,"nl")) a[k++]='\n'; } }
  conf=a; confn=k; place=sx_choose(3,"place"); if(place==2){ mfs_add("/etc/ld.so.conf",MT_FILE,"/s9\n",4); mfs_add("/etc/ld.so.conf.d/z.conf",MT_FILE,"/last",5); mfs_add("/etc/ld.so.conf.d/m.conf",MT_FILE,a,k); mfs_add("/etc/ld.so.conf.d/b",MT_FILE,"/first\n",7); mfs_add("/etc/ld.so.conf.d/sub",MT_DIR,0,0); } else if(place==1) mfs_add("/etc/ld.so.conf",MT_FILE,a,k); else if(k>8) sx_end();
  w[n-1]="-v";
#elif MODE==3 // long directories and names
  static const int L[]={40,100,230,240,245,246,247,248,249,250,252,490,495,500,502,504,505,506,508,900,1000,1010,1014,1016,1018,1020,1024}, N[]={1,3,12,100,200}; int len=L[sx_choose(TIER_QUICK?20:27,"dirlen")]; ldir[0]='/'; for(int i=1;i<len;i++) ldir[i]= i%100==99&&i<len-1?'/':'a'+i%26; for(int i=99;i<len-1;i+=100){ char k=ldir[i]; ldir[i]=0; mfs_add(ldir,MT_DIR,0,0); ldir[i]=k; } ldir[len-2]=sx_u8("c"); sx_assume(ldir[len-2]!=0&&ldir[len-2]!='/'&&ldir[len-2]!='.'); mfs_add(ldir,MT_DIR,0,0); mfs_add("/s1",MT_DIR,0,0);
  nl=2; int ln=N[sx_choose(5,"namelen")]; for(int i=0;i<ln;i++) nm[0][i]='k'+i%9; strcpy(nm[1],"zz"); unsigned cw=sx_choose(3,"where"); mfs_add("/etc/ld.so.conf",MT_FILE,"/s1\n",4);
  if(TIER_QUICK&&cw&&ln!=3) sx_end(); if(cw==0){ w[n++]="-L"; w[n++]=ldir; dirs[nd++]=ldir; dirs[nd++]="/w"; } else if(cw==1){ strcpy(mfs_cwd,ldir); w[0]="/w/cjit"; dirs[nd++]=ldir; } else { char*a=malloc(1300); strcpy(a,"-L"); strcat(a,ldir); w[n++]=a; dirs[nd++]=ldir; dirs[nd++]="/w"; } dirs[nd++]="/s1"; char*a=malloc(300); strcpy(a,"-l"); strcat(a,nm[0]); w[n++]=a; w[n++]="-lzz"; w[n++]="/w/a.c";
  unsigned s1=sx_choose(6,"s1"); entry(ldir,nm[0],s1); if(sx_choose(2,"later")) entry("/s1",nm[0],1); entry(sx_choose(2,"dz")?ldir:"/s1","zz",1+sx_choose(3,"sz"));
#else // the tool's own list of what is linked agrees, and -o uses the same files
  for(int i=1;i<7;i++) mfs_add(alldirs[i],MT_DIR,0,0); mfs_add("/etc/ld.so.conf",MT_FILE,"/s1\n",4); nl=3; strcpy(nm[0],"a"); strcpy(nm[1],"b"); strcpy(nm[2],"a"); nm[1][0]=sx_u8("name"); sx_assume(nm[1][0]!=0&&nm[1][0]!='/'); dirs[nd++]="/w/la"; dirs[nd++]="/w"; dirs[nd++]="/s1"; for(int l=0;l<2;l++){ unsigned d=sx_choose(4,"dir"); if(d<3) entry(dirs[d],nm[l],1+sx_choose(3,"st")); }
  unsigned m=sx_choose(2,"exe"); if(m){ w[n++]="-o"; w[n++]="out"; } char*b=malloc(8); strcpy(b,"-lb"); b[2]=nm[1][0]; w[n++]="-la"; w[n++]=b; w[n++]="-la"; w[n++]="-Lla"; w[n++]="a.c";
#endif
#if MODE!=1
  reference();
#endif
  run_words(n,w); }
