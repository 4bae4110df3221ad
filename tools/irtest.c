#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <ctype.h>
#include <limits.h>
#include <float.h>
typedef struct { int a; double b; } ID;
typedef struct { int a,b; } II;
typedef struct { double x,y; } DD;
typedef struct { double x,y,z; } V3;
typedef struct { int n; double *p; } Arr;
typedef struct { long lo,hi; } Rng;
typedef struct { float f,g; } FF;
typedef struct { char c; short s; int i; bool q; } Mix;
typedef union { double d; int64_t i; } U;
enum kind { KA, KB=5, KC };
static ID mkid(int a,double b) { ID r={a,b}; return r; }
static double useid(ID v) { return v.a*v.b; }
static II swapii(II v) { return (II){v.b,v.a}; }
static DD mul(DD a,DD b) { return (DD){a.x*b.x-a.y*b.y,a.x*b.y+a.y*b.x}; }
static V3 cross(V3 a,V3 b) { V3 r; r.x=a.y*b.z-a.z*b.y; r.y=a.z*b.x-a.x*b.z; r.z=a.x*b.y-a.y*b.x; return r; }
static double suma(Arr a) { double s=0; for(int i=0;i<a.n;i++) s+=a.p[i]; return s; }
static Rng rng(int n) { return (Rng){-n,n}; }
static FF half(FF a) { return (FF){a.f/2,a.g/2}; }
static Mix mixit(Mix m) { m.i+=m.c; m.s*=2; m.q=!m.q; return m; }
static int cmpd(const void *a,const void *b) { double x=*(const double *)a,y=*(const double *)b; return (x>y)-(x<y); }
static double ap(double (*f)(double),double x) { return f(x); }
static double sq(double x) { return x*x; }
static double complex rot(double complex z,double c,double s) { return z*(c+I*s); }
double t1(double x,int n) { return useid(mkid(n,x)); }
double t2(double x,int n) { II r=swapii((II){n,7}); return r.a*10+r.b+x; }
double t3(double x,int n) { DD a={x,n},b={0.5,-x}; DD r=mul(a,b); return r.x+3*r.y; }
double t4(double x,int n) { V3 a={x,1,n},b={2,x,-1}; V3 r=cross(a,b); return r.x+2*r.y+3*r.z; }
double t5(double x,int n) { double v[n+1]; for(int i=0;i<=n;i++) v[i]=x*i; Arr a={n+1,v}; return suma(a); }
double t6(double x,int n) { Rng r=rng(n); return r.lo+2*r.hi+x; }
double t7(double x,int n) { FF r=half((FF){1.5f,n}); return r.f+r.g+x; }
double t8(double x,int n) { Mix m={3,n,5,true}; Mix r=mixit(m); return r.i+r.s+r.q+x; }
double t9(double x,int n) { double v[4]={x,0.25,-1,n}; qsort(v,4,sizeof(double),cmpd); return v[0]+10*v[1]+100*v[2]+1000*v[3]; }
double t10(double x,int n) { double (*f[2])(double)={sq,sqrt}; return ap(f[n%2],fabs(x)); }
double t11(double x,int n) { double complex z=x+I*n; z=rot(z,0.6,0.8); z=z/(1+2*I)+conj(z); return cabs(z)+creal(z)-2*cimag(z); }
double t12(double x,int n) { int s=0; for(int i=0;;i++) { if(i%3==0) continue; if(i>n) break; s+=i; } do { s--; } while(s>5); return s+x; }
double t13(double x,int n) { switch(n) { case 0: return 1; case 1: case 2: x+=2; case 3: return x; case KB: return -1; default: break; } return x*2; }
double t14(double x,int n) { double *a=calloc(n+2,sizeof *a),*p=a; *p++=x; *p=2; p=realloc(a,(n+5)*sizeof *p); p[n+4]=1; double r=p[0]+p[1]+p[n+4]; free(p); return r; }
double t15(double x,int n) { double v[5]={0,1,2,3,4}; double *e=v+5,*p; double s=0; for(p=v;p<e;++p) s+=*p*(p-v); for(p=e;p-->v;) s=s*0.5+*p; return s+(e-p)+x+n; }
double t16(double x,int n) { int m[3][2]={{1,2},{3,4},{5,6}}; int (*q)[2]=m+1; return q[1][0]+(*q)[1]+m[n%3][1]+x; }
double t17(double x,int n) { size_t i,k=0; for(i=n+3;i-->0;) k+=i; unsigned u=n; u-=1; return k+(u>10?1:2)+x; }
double t18(double x,int n) { return fmax(fmin(x,2),-2)+floor(x)+ceil(x)+round(x)+trunc(x)+lround(x)+rint(x)+copysign(1,x)+fmod(x,0.75); }
double t19(double x,int n) { int b=(n<<3)|5; b^=n; b&=~1; return b+(b>>1)+(n&1?x:-x); }
double t20(double x,int n) { bool a=x>0,c=n>2; return (a&&c)+2*(a||c)+4*(a!=c)+8*!a; }
double t21(double x,int n) { static const double tab[]={1,2,4,8}; static int cnt; cnt+=n; return tab[n&3]+x; }
double t22(double x,int n) { char buf[64]; snprintf(buf,sizeof buf,"n=%d",n); return strlen(buf)+(strcmp(buf,"n=3")==0)+(strstr(buf,"=")!=NULL)+x; }
double t23(double x,int n) { return hypot(x,3)+pow(x,2)+pow(2,n)+exp(x)+log(1+x*x)+sin(x)*cos(x)+atan2(x,1.5)+tan(x)+cbrt(8)+log10(100)+exp2(3)+expm1(0.5)+log1p(0.5); }
double t24(double x,int n) { if(isnan(x)||isinf(x)||!isfinite(x)) return 1; return signbit(x)?2:3; }
double t25(double x,int n) { int i; double s=0; for(i=0;i<n;i++) { if(i==2) goto out; s+=i; } out: return s+x; }
double t26(double x,int n) { double a[2][3]; memset(a,0,sizeof a); a[1][n%3]=x; double b[2][3]; memcpy(b,a,sizeof b); memmove(b[0],b[1],sizeof b[0]); return b[0][n%3]+b[1][n%3]; }
double t27(double x,int n) { long long k=(long long)n*1000000007LL; return (k%97)+x+(double)(k/3)+(int)x+(long)(x*10)+(unsigned char)(n*77); }
double t28(double x,int n) { typedef double row[3]; row *r=malloc(2*sizeof(row)); for(int i=0;i<6;i++) ((double *)r)[i]=i*x; double s=r[1][2]; free(r); return s; }
double t29(double x,int n) { int v[3]={n,n+1,n+2}; int *p=&v[1]; return (p[-1]+*(p+1))*x+abs(-n)+labs(-3L); }
double t30(double x,int n) { V3 *v=malloc(3*sizeof *v); v[0]=(V3){x,1,2}; v[1]=v[0]; v[2]=v[1]; v[1].y=n; V3 *q=&v[1]; double s=q->y+v[2].x+(q+1)->z; free(v); return s; }
double t31(double x,int n) { int i,j,s=0; for(i=0,j=n;i<j;i++,j--) s+=i*j; return (s,x+s); }
double t32(double x,int n) { double c=(n>1)?((x>0)?1:2):3; c+=x>=0; return -c; }
double t33(double x,int n) { double y=NAN; return (y!=y)+isnan(y)+isinf(INFINITY)+(x<HUGE_VAL)+fdim(x,1)+fma(x,2,1)+DBL_EPSILON+INT_MAX; }
double t34(double x,int n) { ID v[2]={{1,2.5},{n,x}}; ID w=v[n&1]; const ID *p=v; return w.a+w.b+p[1].b; }
double t35(double x,int n) { double *rows[3]; double st[9]; for(int i=0;i<3;i++) rows[i]=st+3*i; for(int i=0;i<9;i++) st[i]=i+x; double **rr=rows; double *t=rr[0]; rr[0]=rr[2]; rr[2]=t; return rows[0][1]+rows[2][2]; }
double t36(double x,int n) { float f=x; f*=n; return f+(float)0.1; }
double t37(double x,int n) { double complex *z=malloc(2*sizeof *z); z[0]=x+n*I; z[1]=conj(z[0])*z[0]; double *d=(double *)z; double r=d[0]+d[1]+d[2]+d[3]+carg(1+I)+creal(cexp(I*0.5)); free(z); return r; }
double t38(double x,int n) { double s=0; int i=0; while(1) { if(++i>n) break; s+=1.0/i; } return s+x; }
double t39(double x,int n) { char *names[]={"C1","C2","Smooth"}; int k=-1; for(int i=0;i<3;i++) if(!strncmp(names[i],"Smo",3)) k=i; return k+x+strlen(names[2])+names[0][1]; }
double t40(double x,int n) { int q=-7/2+(-7)%3+(n-5)/2; return q+x; }
typedef struct { V3 pos; int id; struct { double w; int k[2]; } in; } Nest;
typedef struct { double (*f)(double); const char *name; } Op;
static const Op ops[]={{sq,"sq"},{sqrt,"sqrt"},{fabs,"abs"}};
static Nest mknest(double x,int n) { Nest r={{x,2*x,3*x},n,{0.5,{n,n+1}}}; return r; }
static int fact(int n) { return n<2?1:n*fact(n-1); }
#include <stdarg.h>
static double vsum(int n,...) { va_list a; va_start(a,n); double s=0; while(n--) s+=va_arg(a,double); va_end(a); return s; }
static int visum(int n,...) { va_list a; va_start(a,n); int s=0; while(n--) s+=va_arg(a,int); va_end(a); return s; }
static void out(double *restrict a,int *n) { *a=2; (*n)++; }
static inline double lerp(double a,double b,double t) { return a+(b-a)*t; }
double t41(double x,int n) { Nest a=mknest(x,n),b=a; b.in.k[1]*=2; Nest *p=&b; p->pos.y+=1; return a.pos.x+b.pos.y+p->in.k[1]+b.id+a.in.w; }
double t42(double x,int n) { const Op *o=&ops[n%3]; return o->f(fabs(x))+strlen(o->name); }
double t43(double x,int n) { return fact(n)+vsum(2,x,2.)+visum(3,n,n+1,2); }
double t44(double x,int n) { double a; out(&a,&n); return a*n+lerp(x,3,0.25); }
double t45(double x,int n) { double complex z=x+n*I; z*=z; z+=1; z/=2; z-=I; double complex *p=&z; *p*=I; return creal(z)+10*cimag(z)+__real__ z; }
double t46(double x,int n) { uint8_t u=n*100; int8_t s=(int8_t)(n*50); int64_t k=((int64_t)n<<40)+3; uint64_t h=(uint64_t)n*2654435761u; return u+s+(double)(k%1000)+(double)(h>>7)+x; }
double t47(double x,int n) { struct { unsigned a:3; unsigned b:5; } f={n&7,9}; f.b+=f.a; return f.a+f.b*10+x; }
double t48(double x,int n) { double **a=malloc(3*sizeof *a); for(int i=0;i<3;i++) { a[i]=malloc(2*sizeof **a); a[i][0]=i; a[i][1]=x*i; } double **b=realloc(a,4*sizeof *b); b[3]=b[1]; double s=b[3][1]+b[2][0]; for(int i=0;i<3;i++) free(b[i]); free(b); return s+n; }
double t49(double x,int n) { int v[4]={n,3,-2,0},*mx=v; for(int *p=v+1;p!=v+4;p++) if(*p>*mx) mx=p; return *mx+(int)(mx-v)*x; }
double t50(double x,int n) { double s=0,w[3]={0.25,0.5,0.25}; for(size_t i=0;i<sizeof w/sizeof *w;i++) s+=w[i]*(x+i); return s*n; }
double t51(double x,int n) { int err=0; double *a=malloc(8); if(!a) { err=1; goto done; } *a=x; if(n>4) { err=2; goto done; } *a+=1; done: x=a?*a:0; free(a); return x+err; }
double t52(double x,int n) { V3 v[2]={{1,2,3},{x,x,n}}; V3 c=(n>2)?v[0]:v[1]; V3 *m=n%2?&v[0]:&v[1]; return c.x+c.z+m->y; }
double t53(double x,int n) { double a[3]={x,n,1},b[3]; memcpy(b,a,sizeof b); double *p=a,*q=b; double *t=p; p=q; q=t; p[0]*=2; return a[0]+b[0]+(p==b)+(p!=q); }
double t54(double x,int n) { unsigned long long i=n; int c=0; while(i) { c+=i&1; i>>=1; } return c+x+__builtin_popcount(n)+__builtin_clz(n)+__builtin_ctz(n); }
double t55(double x,int n) { long i=lrint(x*3),j=lround(x*3),k=(long)floor(x*3); int e; double m=frexp(x,&e); return i+j+k+m+e+ldexp(x,2)+nearbyint(x)+remainder(x,0.5)+(x<0?-1:1)*n; }
double t56(double x,int n) { char s[16]="ab"; strcat(s,"cd"); s[n%4]=toupper(s[n%4]); char *d=strdup(s); int r=strcmp(s,"abCd"); double v=(r>0)-(r<0)+strlen(d)+atoi("12")+atof("1.5")+strtol("7",NULL,10); free(d); return v+x; }
double t57(double x,int n) { double acc[2]={0,0}; for(int i=n;i--;) acc[i&1]+=x; int sgn[]={[0]=1,[1]=-1}; return acc[0]*sgn[0]+acc[1]*sgn[1]; }
double t58(double x,int n) { DD a[2]={{x,1},{n,2}}; DD s={0,0}; for(DD *p=a;p<a+2;p++) { DD q=mul(*p,*p); s.x+=q.x; s.y+=q.y; } return s.x-s.y; }
double t59(double x,int n) { int lo=0,hi=9; static const double t[10]={0,1,2,3,4,5,6,7,8,9}; while(hi-lo>1) { int mid=lo+(hi-lo)/2; if(t[mid]<=x+n) lo=mid; else hi=mid; } return lo; }
double t60(double x,int n) { volatile double v=x; const int k=n; register int j=k; _Bool b=n; return v+j+b; }
