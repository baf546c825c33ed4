// F02: the dynamic array against a list model. MODE 0: n adds then K arbitrary operations with unknown
// indices, contents, sizes and keys. MODE 1: long grow/shrink histories. MODE 2: fixed-size arrays.
#include "sx.h"
#include <string.h>
#include "array.h"
typedef struct { size_t n; unsigned char b[4]; uint32_t key; } ent;
static ent M[40]; static size_t mn;
static void mins(size_t i,ent e){ for(size_t k=mn;k>i;k--) M[k]=M[k-1]; M[i]=e; mn++; }
static void mdel(size_t i){ for(size_t k=i;k+1<mn;k++) M[k]=M[k+1]; mn--; }
static int nsize;
static ent mk(int vary){ ent e; e.n= vary? 1+sx_choose(3,"size"):2; sx_symbolic(e.b,4,"data"); e.key=0; return e; }
static void sameent(xarray_data_t*d,ent*e){
  sx_assert(d!=0,"a live element is missing"); sx_assert(d->nSize==e->n,"element size changed"); sx_assert(d->nKey==e->key,"element key changed");
  unsigned char*p=d->pData; int ok=1; for(size_t i=0;i<e->n;i++) ok&=p[i]==e->b[i]; sx_assert(ok,"element content changed"); sx_assert(p[e->n]==0,"element is not followed by a NUL byte"); }
static void compare(xarray_t*a){
  sx_assert(XArray_Used(a)==mn,"length differs from the list model"); sx_assert(XArray_Size(a)>=mn||mn==0,"capacity below length");
  for(size_t i=0;i<mn;i++){ sameent(XArray_Get(a,i),&M[i]); sx_assert(XArray_Contains(a,i)==1,"Contains denies a live element"); sx_assert(XArray_GetSize(a,i)==M[i].n,"GetSize"); sx_assert(XArray_GetKey(a,i)==M[i].key,"GetKey"); sx_assert(XArray_GetData(a,i)==XArray_Get(a,i)->pData,"GetData"); }
  for(size_t i=mn;i<XArray_Size(a);i++) sx_assert(XArray_Get(a,i)==0&&XArray_GetData(a,i)==0&&!XArray_Contains(a,i),"element beyond the end");
  char dflt; size_t big=(size_t)sx_u64("oob"); sx_assume(big>=XArray_Size(a)); sx_assert(XArray_Get(a,big)==0&&XArray_GetData(a,big)==0&&XArray_GetDataOr(a,big,&dflt)==&dflt&&XArray_GetSize(a,big)==0,"access beyond the capacity is not refused"); }
static void add(xarray_t*a,int vary){ ent e=mk(vary); int r; if(sx_choose(vary?2:1,"withkey")){ e.key=sx_u32("key"); r=XArray_AddDataKey(a,e.b,e.n,e.key); } else r=XArray_AddData(a,e.b,e.n); sx_assert(r==(int)mn,"add does not return the new index"); mins(mn,e); }
static void op(xarray_t*a){
  unsigned k=sx_choose(6,"op"); size_t i=0; ent e; if(mn<1&&k!=0&&k!=2) sx_end(); if(k) i=sx_choose(mn+(k==2),"index");
  switch(k){
  case 0: add(a,0); break;
  case 1: { xarray_data_t*d=XArray_Remove(a,i); sameent(d,&M[i]); XArray_FreeData(d); mdel(i); sx_cover("remove"); break; }
  case 2: { e=mk(0); XArray_InsertData(a,i,e.b,e.n); mins(i,e); sx_cover("insert"); break; }
  case 3: { e=mk(0); xarray_data_t*d=XArray_SetData(a,i,e.b,e.n); sameent(d,&M[i]); XArray_FreeData(d); M[i]=e; sx_cover("set"); break; }
  case 4: { XArray_Delete(a,i); mdel(i); sx_cover("delete"); break; }
  case 5: { size_t j=sx_choose(mn,"index2"); XArray_Swap(a,i,j); ent t=M[i]; M[i]=M[j]; M[j]=t; sx_cover("swap"); break; }
  } }
void harness(void){
  xarray_t*a;
#if MODE==0
  static const unsigned caps[]={0,1,2,4}; a=XArray_New(caps[sx_choose(4,"capacity")],0); sx_assert(a!=0,"creation"); 
  unsigned n=sx_choose(NADD+1,"adds"); for(unsigned i=0;i<n;i++) add(a,0);
  for(int k=0;k<KOPS;k++) op(a);
  compare(a);
#elif MODE==1
  a=XArray_New(2+6*sx_choose(2,"capacity"),0); unsigned n=sx_choose(18,"adds"); for(unsigned i=0;i<n;i++) add(a,0); compare(a);
  unsigned r=sx_choose(n+1,"removes"); int where=sx_choose(3,"where"); for(unsigned i=0;i<r;i++){ size_t ix= where==0?0: where==1?mn-1: mn/2; xarray_data_t*d=XArray_Remove(a,ix); sameent(d,&M[ix]); XArray_FreeData(d); mdel(ix); }
  compare(a); sx_cover("shrunk"); add(a,0); add(a,0); compare(a);
  if(sx_choose(2,"clear")){ XArray_Clear(a); mn=0; compare(a); add(a,1); compare(a); }
#else
  unsigned c=1+sx_choose(3,"capacity"); a=XArray_New(c,1); unsigned n=sx_choose(6,"adds");
  for(unsigned i=0;i<n;i++){ if(mn<c) add(a,1); else { ent e=mk(0); sx_assert(XArray_AddData(a,e.b,e.n)==XARRAY_FAILURE,"a full fixed array accepts an element"); sx_cover("full"); } }
  if(mn==c){ ent e=mk(0); sx_assert(XArray_InsertData(a,sx_choose(c,"at"),e.b,e.n)==0,"a full fixed array accepts an insertion"); }
  compare(a);
#endif
  XArray_Free(&a); sx_assert(a==0,"free leaves the pointer"); sx_cover("end"); }
