// reference layout of a structure of plain members and bit-fields (x86-64 SysV, as gcc and clang lay it out)
typedef struct { const char*t; int bits, sgn, w, named; } mk; // w -1: plain
static const mk K[]={{"char",8,1,-1,1},{"char",8,1,3,1},{"short",16,1,9,1},{"int",32,1,-1,1},{"int",32,1,17,1},{"unsigned",32,0,30,1},{"long long",64,1,33,1},{"int",32,1,0,0},{"char",8,1,8,1},{"unsigned short",16,0,-1,1},{"short",16,1,0,0},{"unsigned",32,0,1,1},{"unsigned",32,0,32,1},{"int",32,1,5,0},{"long long",64,1,-1,1},{"unsigned long long",64,0,62,1},{"long long",64,1,5,1}};
#define NK ((int)(sizeof K/sizeof*K))
static int layout(const int*k,int n,int packed,int pack,int*off,int*align){ int o=0,al=8; for(int i=0;i<n;i++){ const mk*m=K+k[i]; int a=m->bits; if(pack&&a>pack*8) a=pack*8; if(packed) a=8;
    if(m->w<0){ o=(o+a-1)/a*a; off[i]=o; o+=m->bits; if(a>al) al=a; continue; }
    if(m->w==0){ o=(o+m->bits-1)/m->bits*m->bits; off[i]=o; continue; }
    if(!packed&&!pack&&o/m->bits!=(o+m->w-1)/m->bits) o=(o+m->bits-1)/m->bits*m->bits;
    off[i]=o; o+=m->w; if(m->named&&!packed&&a>al) al=a; }
  *align=al/8; return (o+al-1)/al*al/8; }
