#include "shtns.h"
#include <cmath>
#include <vector>
static double Pbar(int l, int m, double x) {           /* orthonormal, m >= 0, Condon-Shortley phase */
   double s = std::sqrt((1-x)*(1+x)), p = std::sqrt(1/(4*M_PI));
   for (int k=1; k<=m; k++) p *= -s*std::sqrt((2*k+1.0)/(2*k));
   if (l==m) return p;
   double q = x*std::sqrt(2*m+3.0)*p;
   for (int n=m+2; n<=l; n++) {
      double a = std::sqrt((4.0*n*n-1)/(1.0*n*n-m*m)), b = std::sqrt(((n-1.0)*(n-1.0)-m*m)/(4.0*(n-1)*(n-1)-1));
      double r = a*(x*q - b*p); p = q; q = r;
   }
   return q;
}
static size_t at(shtns_cfg s, int it, int ip) { return s->phic ? size_t(it)*s->nphi+ip : size_t(ip)*s->nlat+it; }
static int cidx(shtns_cfg s, int l, int m) { int M = s->mmax; return l<=M ? l*(l+1)+m : M*(2*l-M)+l+m; }
extern "C" {
void shtns_verbose(int) {}
int shtns_use_threads(int n) { return n; }
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm) {
   shtns_cfg s = new shtns_info();
   s->lmax = lmax; s->mmax = mmax; s->mres = mres;
   s->nlm = 0; for (int m=0; m<=mmax; m++) s->nlm += lmax+1-m;
   s->nlm_cplx = (lmax+1)*(lmax+1) - (lmax-mmax)*(lmax-mmax+1);
   return s;
}
int shtns_set_grid(shtns_cfg s, enum shtns_type f, double, int nlat, int nphi) {
   s->nlat = nlat; s->nlat_2 = nlat/2; s->nphi = nphi; s->nspat = nlat*nphi; s->nlat_padded = nlat;
   s->phic = (int(f) & SHT_PHI_CONTIGUOUS) != 0;
   s->ct = new double[nlat]; s->st = new double[nlat]; s->w = new double[nlat];
   for (int i=0; i<nlat; i++) {
      double x = std::cos(M_PI*(i+.75)/(nlat+.5)), d = 1;
      for (int k=0; k<100; k++) {
         double p0 = 1, p1 = x;
         for (int n=2; n<=nlat; n++) { double p2 = ((2*n-1)*x*p1-(n-1)*p0)/n; p0 = p1; p1 = p2; }
         if (nlat==1) { p0 = 1; p1 = x; }
         d = nlat*(x*p1-p0)/(x*x-1); double dx = p1/d; x -= dx; if (std::fabs(dx)<1e-16) break;
      }
      s->ct[i] = x; s->st[i] = std::sqrt((1-x)*(1+x)); s->w[i] = 2/((1-x*x)*d*d);
   }
   return s->nspat;
}
void shtns_destroy(shtns_cfg s) { delete[] s->ct; delete[] s->st; delete[] s->w; delete s; }
void spat_to_SH(shtns_cfg s, double *v, cplx *q) {
   for (int m=0; m<=s->mmax; m++) for (int l=m; l<=s->lmax; l++) {
      cplx a = 0;
      for (unsigned it=0; it<s->nlat; it++) { cplx b = 0;
         for (unsigned ip=0; ip<s->nphi; ip++) b += v[at(s,it,ip)]*std::polar(1., -2*M_PI*m*ip/s->nphi);
         a += s->w[it]*Pbar(l,m,s->ct[it])*b*(2*M_PI/s->nphi); }
      q[LM(s,l,m)] = a;
   }
}
void SH_to_spat(shtns_cfg s, cplx *q, double *v) {
   for (unsigned it=0; it<s->nlat; it++) {
      std::vector<cplx> b(s->mmax+1, 0);
      for (int m=0; m<=s->mmax; m++) for (int l=m; l<=s->lmax; l++) b[m] += q[LM(s,l,m)]*Pbar(l,m,s->ct[it]);
      for (unsigned ip=0; ip<s->nphi; ip++) {
         double x = b[0].real();
         for (int m=1; m<=s->mmax; m++) x += 2*(b[m]*std::polar(1., 2*M_PI*m*ip/s->nphi)).real();
         v[at(s,it,ip)] = x;
      }
   }
}
void spat_cplx_to_SH(shtns_cfg s, cplx *z, cplx *q) {
   for (int l=0; l<=s->lmax; l++) for (int m=-std::min<int>(l,s->mmax); m<=std::min<int>(l,s->mmax); m++) {
      cplx a = 0;
      double sg = (m<0 && (m&1)) ? -1 : 1;
      for (unsigned it=0; it<s->nlat; it++) { cplx b = 0;
         for (unsigned ip=0; ip<s->nphi; ip++) b += z[at(s,it,ip)]*std::polar(1., -2*M_PI*m*double(ip)/s->nphi);
         a += sg*s->w[it]*Pbar(l,std::abs(m),s->ct[it])*b*(2*M_PI/s->nphi); }
      q[cidx(s,l,m)] = a;
   }
}
void SH_to_spat_cplx(shtns_cfg s, cplx *q, cplx *z) {
   for (unsigned it=0; it<s->nlat; it++) for (unsigned ip=0; ip<s->nphi; ip++) {
      cplx x = 0;
      for (int l=0; l<=s->lmax; l++) for (int m=-std::min<int>(l,s->mmax); m<=std::min<int>(l,s->mmax); m++)
         x += q[cidx(s,l,m)]*((m<0 && (m&1)) ? -1. : 1.)*Pbar(l,std::abs(m),s->ct[it])*std::polar(1., 2*M_PI*m*double(ip)/s->nphi);
      z[at(s,it,ip)] = x;
   }
}
}
