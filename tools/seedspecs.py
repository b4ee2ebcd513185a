SEEDS = []
def S(**k): SEEDS.append(k)
PRE = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::fprintf(stderr, "failed: %s (line %d)\n", #c, __LINE__); } } while (0)
'''
# ------------------------------------------------------------------ radial
S(id='fd-spacing-origin', prop='C03', srcs='finite_diff', edits=[('Source/finite_diff.cpp', '_dx{(_upper-_lower)/(_n-1)}', '_dx{(_upper-_lower)/(_n-1)}')][:0] +
  [('Source/finite_diff.cpp', 'return _dx*i + _lower;', 'return (i+1<_n) ? _dx*i + _lower : _dx*i;')],
  needs='an interval that does not start at 0, and the last grid point', breaks='the last finite-difference grid point is not the upper end of the interval when lower is not 0',
  demo=PRE + r'''#include "finite_diff.hpp"
int main() { for (double lo : {0.0, 1.7, -2.0}) { FD f(33, lo, lo+5); for (int i=0;i<33;i++) CHECK(std::fabs(f.pt(i)-(lo+5.0*i/32))<1e-12); } return bad; }
''')
S(id='fd-filter-last', prop='C02', srcs='finite_diff', edits=[('Source/finite_diff.cpp', '   for (size_t i=4; i<_n-4; i++) { \n      v[i] = tmp[i];', '   for (size_t i=4; i<_n-5; i++) { \n      v[i] = tmp[i];')],
  needs='grid-scale noise at the last filtered point (5th from the outer end)', breaks='the 5th value from the end is never filtered',
  demo=PRE + r'''#include "finite_diff.hpp"
int main() { const int n=40; FD f(n,0,1); std::vector<double> v(n); for (int i=0;i<n;i++) v[i]=(i%2)?1:-1; f.filter(v);
 for (int i=4;i<n-4;i++) CHECK(std::fabs(v[i])<1e-12); return bad; }
''')
S(id='cheb-filter-order', prop='C06', srcs='cheb', edits=[('Source/cheb.cpp', 'pow(double(i)/_n,16)', 'pow(double(i)/_n,10)')],
  needs='data with content in the upper part of the lower half of the spectrum', breaks='coefficients near the middle of the spectrum are damped by more than 0.1%',
  demo=PRE + r'''#include "cheb.hpp"
int main() { const int n=65; Cheb c(n,-1,1); for (int k=0;k<=32;k++) { std::vector<double> v(n), ch(n); for (int i=0;i<n;i++) v[i]=std::cos(k*M_PI*i/(n-1.0));
 c.filter(v); c.to_ch(v,ch); CHECK(std::fabs(ch[k]-1)<1e-3); } return bad; }
''')
# ------------------------------------------------------------------ sphere
S(id='raise-in-place', prop='C09', srcs='sphere', stub=1, edits=[('Source/sphere.cpp', 'for (int m=int(l); m>-int(l); m--) {', 'for (int m=-int(l)+1; m<=int(l); m++) {')],
  needs='a field with two neighbouring azimuthal orders of one degree', breaks='raising reads coefficients that the same loop has already overwritten',
  demo=PRE + r'''#include "sphere.hpp"
int main() { Sphere s(5,5,10,14); std::vector<double> v(s.nSph()); for (int l=0;l<=5;l++) for (int m=0;m<=l;m++) { auto y=s.compute_ylm(l,m); for (size_t i=0;i<v.size();i++) v[i]+=(1+l-.3*m)*y[i]; }
 std::vector<cplx> r(s.nSph()), z(s.nSph()), a(36), b(36); for (size_t i=0;i<v.size();i++) z[i]=v[i]; s.to_Ylm(z,a); s.raise(v,r); s.to_Ylm(r,b);
 for (int l=0;l<=5;l++) for (int m=-l;m<=l;m++) { cplx w = m>-l ? std::sqrt((l-m+1.0)*(l+m))*a[l*(l+1)+m-1] : cplx(0); CHECK(std::abs(b[l*(l+1)+m]-w)<1e-9); } return bad; }
''')
# ------------------------------------------------------------------ grid
S(id='chain-rule-rmax', prop='C18', srcs='grid sphere finite_diff', stub=1, edits=[('Source/grid.cpp', '_d2R_over_dr2[ix] = (-2.0/cl)*pow(1.0 - (_radial.pt(ix)/cl),3);', '_d2R_over_dr2[ix] = (-2.0/_Rmax)*pow(1.0 - (_radial.pt(ix)/cl),3);')],
  needs='a grid whose outer boundary is not at infinity (Rmax different from the compactification length)', breaks='the second radial derivative uses the outer boundary instead of the compactification length',
  demo=PRE + r'''#include "grid.hpp"
int main() { for (double Rm : {10.0, 6.0}) { Grid g(10.0,1.0,Rm,65,3,3,6,8); const size_t N=65*6*8; std::vector<double> v(N), d(N);
 for (size_t i=0;i<N;i++) { double R=g.R_th_ph(i)[0]; v[i]=R*R; } g.set_partial2_r(v,d);
 for (size_t i=0;i<N;i++) { double R=g.R_th_ph(i)[0], q=1-R/10; CHECK(std::fabs(d[i]-(pow(q,4)*2-(2/10.0)*pow(q,3)*2*R))<1e-7); } } return bad; }
''')
S(id='filter-ends-cheb', prop='C19', srcs='grid sphere cheb', stub=1, flags='-DUSE_CHEB', edits=[('Source/grid.cpp', 'inter_radial[_nx-1] = upr;', 'inter_radial[_nx-1] = inter_radial[_nx-1];')][:0] +
  [('Source/grid.cpp', '      const double upr = inter_radial[_nx-1];', '#if USE_CHEB\n      const double upr = inter_radial[_nx-2];\n#else\n      const double upr = inter_radial[_nx-1];\n#endif')],
  needs='the Chebyshev build and a field that varies near the inner boundary', breaks='the last point of each radial line does not keep its spherically filtered value',
  demo=PRE + r'''#include "grid.hpp"
int main() { Grid g(10.0,1.0,10.0,17,3,3,6,8); const size_t N=17*6*8; std::vector<double> v(N); for (size_t i=0;i<N;i++) { double R=g.R_th_ph(i)[0]; v[i]=1+R+sin(3*R); } auto w=v; g.filter(v);
 for (int it=0;it<6;it++) for (int ip=0;ip<8;ip++) for (int ix : {0,16}) { size_t k=g.indx_R_th_ph(ix,it,ip); CHECK(std::fabs(v[k]-w[k])<1e-9); } return bad; }
''')
# ------------------------------------------------------------------ parameters and launcher
PF = r'''
static void params(const char *nlat, const char *nphi, bool rev=false) { std::vector<std::string> L = {"nt 10","nx 33","nl 5","nm 4",std::string("nlat ")+nlat,std::string("nphi ")+nphi,"t_step_save 2","dt 0.001","compactification_length 20.123456789012","Rmax 20","Rmin 1",
 "black_hole_mass 1","black_hole_spin 0.9","km1 0.1","k0 1","k1 2","k2 3","V2 4","V3 5","V4 6","initial_data_type compact_pulse","initial_data_direction ingoing","amp 0.5","rl 1.25","ru 3.5","l_ang 2","m_ang 1"};
 std::ofstream f("params.txt"); if (rev) for (size_t i=L.size();i-->0;) f<<L[i]<<"\n"; else for (auto &x : L) f<<x<<"\n"; }
'''
S(id='lookup-prefix', prop='C27', srcs='params', edits=[('Source/params.cpp', '      if (name==find_this_var) {\n\n         std::string val;', '      if (name.compare(0, find_this_var.size(), find_this_var)==0) {\n\n         std::string val;')],
  needs='a parameter file in which a longer key with the same beginning comes first (nlat before nl, rl_0 before rl)', breaks='a lookup of nl returns the value of nlat',
  demo=PRE + '#include "params.hpp"' + PF + r'''
int main() { for (bool r : {false, true}) { params("12","16",r); Params p("params.txt"); CHECK(p.nl()==5); CHECK(p.nlat()==12); CHECK(p.rl()==1.25); } return bad; }
''')
S(id='cl-single-precision', prop='C26', srcs='params', edits=[('Source/params.cpp', '_cl =   std::stod(_read(param_file,"compactification_length"));', '_cl =   std::stof(_read(param_file,"compactification_length"));')],
  needs='a compactification length that is not exactly representable in single precision', breaks='the compactification length is read in single precision, so no grid point is at infinity',
  demo=PRE + '#include "params.hpp"' + PF + r'''
int main() { params("12","16"); Params p("params.txt"); CHECK(p.cl()==20.123456789012); CHECK(p.ru()==3.5); CHECK(p.nphi()==16); return bad; }
''')
# ------------------------------------------------------------------ evolution
EOMPF = r'''
static void params(double a, double m=1, double v3=0) { std::ofstream f("params.txt"); f.precision(17);
 f<<"nt 10\nnx 12\nnl 3\nnm 3\nnlat 6\nnphi 8\nt_step_save 2\ndt 0.01\ncompactification_length 10\nRmax 10\nRmin 1\nblack_hole_mass "<<m<<"\nblack_hole_spin "<<a<<"\nkm1 0.1\nk0 1\nk1 0.2\nk2 0.3\nV2 0.4\nV3 "<<v3<<"\nV4 6\n"
 "initial_data_type compact_pulse\ninitial_data_direction ingoing\namp 0.5\nrl 1.25\nru 3.5\nl_ang 2\nm_ang 1\n"; }
'''
S(id='eom-spin-sign', prop='C21', srcs='scalar_eom field params grid sphere finite_diff', stub=1,
  edits=[('Source/scalar_eom.cpp', '_p_dr_f_dphi_f[indx] = 2.*a*pow(inv_r,2)/Sigma;', '_p_dr_f_dphi_f[indx] = 2.*fabs(a)*pow(inv_r,2)/Sigma;')],
  needs='a negative spin, a non-constant kinetic function and a non-axisymmetric field', breaks='the cross term of the gradient square has the wrong sign for counter-rotating black holes',
  demo=PRE + '#include "scalar_eom.hpp"\n#include "field.hpp"\n' + EOMPF + r'''
/* reflecting phi and the sign of the spin together is a symmetry */
static std::vector<double> run(double a, bool flip) { params(a); Params P("params.txt"); Grid g(10,1,10,12,3,3,6,8); Scalar_eom e(g,P); const size_t N=12*6*8; std::vector<double> f(N), p(N), fk(N), pk(N), o(N);
 for (int ix=0;ix<12;ix++) for (int it=0;it<6;it++) for (int ip=0;ip<8;ip++) { auto x=g.R_th_ph(ix,it,ip); double ph=flip?-x[2]:x[2]; size_t k=g.indx_R_th_ph(ix,it,ip); f[k]=0.3*sin(x[0])*(1+sin(x[1])*sin(ph)); p[k]=0.2*cos(x[0])*(1+sin(x[1])*cos(ph)); }
 e.set_k(g,f,p,fk,pk); for (int ix=0;ix<12;ix++) for (int it=0;it<6;it++) for (int ip=0;ip<8;ip++) o[g.indx_R_th_ph(ix,it,ip)] = pk[g.indx_R_th_ph(ix,it,flip?(8-ip)%8:ip)]; return o; }
int main() { auto u=run(0.7,false), w=run(-0.7,true); for (size_t i=0;i<u.size();i++) CHECK(std::fabs(u[i]-w[i])<1e-9); return bad; }
''')
S(id='rk4-last-stage', prop='C23', srcs='scalar_eom field params grid sphere finite_diff', stub=1,
  edits=[('Source/scalar_eom.cpp', '         p.l[i] = p.n[i] + _dt*p.k[i];', '         p.l[i] = p.l[i] + 0.5*_dt*p.k[i];')],
  needs='one complete time step compared with the Runge-Kutta formula', breaks='the last stage starts from the momentum of the third stage instead of the current level',
  demo=PRE + '#include "scalar_eom.hpp"\n#include "field.hpp"\n' + EOMPF + r'''
int main() { params(0.5); Params P("params.txt"); Grid g(10,1,10,12,3,3,6,8); Scalar_eom e(g,P); const size_t N=12*6*8; Field f("f",N,0), p("p",N,0);
 for (size_t i=0;i<N;i++) { auto x=g.R_th_ph(i); f.n[i]=0.3*sin(x[0])*cos(x[1]); p.n[i]=0.4*cos(x[0]); }
 std::vector<double> a=f.n, b=p.n; g.filter(a); g.filter(b); const double dt=0.01; std::vector<double> A[4], B[4], x=a, y=b;
 for (int s=0;s<4;s++) { A[s].resize(N); B[s].resize(N); e.set_k(g,x,y,A[s],B[s]); const double h=(s==2)?dt:dt/2; for (size_t i=0;i<N;i++) { x[i]=a[i]+h*A[s][i]; y[i]=b[i]+h*B[s][i]; } }
 e.time_step(g,f,p); for (size_t i=0;i<N;i++) { CHECK(std::fabs(f.np1[i]-(a[i]+dt/6*(A[0][i]+2*A[1][i]+2*A[2][i]+A[3][i])))<1e-13); CHECK(std::fabs(p.np1[i]-(b[i]+dt/6*(B[0][i]+2*B[1][i]+2*B[2][i]+B[3][i])))<1e-13); } return bad; }
''')
S(id='rho-cubic-potential', prop='C22', srcs='scalar_eom field params grid sphere finite_diff', stub=1,
  edits=[('Source/scalar_eom.cpp', '         +  (_v3/6. )*pow(f[i],3)', '         +  (_v3/6. )*pow(fabs(f[i]),3)')],
  needs='a cubic potential and a negative field value', breaks='the cubic potential energy has the wrong sign for negative field values',
  demo=PRE + '#include "scalar_eom.hpp"\n#include "field.hpp"\n' + EOMPF + r'''
int main() { params(0.5,1,2.0); Params P("params.txt"); Grid g(10,1,10,12,3,3,6,8); Scalar_eom e(g,P); const size_t N=12*6*8; std::vector<double> rho(N), p(N,0.0);
 for (double c : {0.25,-0.25}) { std::vector<double> f(N,c); e.set_rho(g,f,p,rho); for (size_t i=0;i<N;i++) CHECK(std::fabs(rho[i]-(0.2*c*c+2*c*c*c/6+6*c*c*c*c/24))<1e-9); } return bad; }
''')
S(id='pulse-norm-signed', prop='C24', srcs='initial_data params grid sphere finite_diff', stub=1,
  edits=[('Source/initial_data.cpp', '         max_val = fabs(f[grid.indx_R_th_ph(ix,it,ip)]);', '         max_val = fabs(f[grid.indx_R_th_ph(ix,it,ip)]/ylm[grid.indx_th_ph(it,ip)]);')],
  needs='a pulse with angular structure (l larger than 0)', breaks='the amplitude is normalised without the angular factor, so the largest absolute value is not amp',
  demo=PRE + '#include "initial_data.hpp"\n' + EOMPF + r'''
int main() { params(0.5); Params P("params.txt"); Grid g(10,1,10,12,3,3,6,8); const size_t N=12*6*8; std::vector<double> f(N), p(N); ID::compact_pulse(P,g,f,p); double m=0; for (double x : f) m=std::max(m,std::fabs(x)); CHECK(std::fabs(m-0.5)<1e-12); return bad; }
''')
# ------------------------------------------------------------------ safety
S(id='hoisted-row-buffer', prop='C13', srcs='grid sphere finite_diff', stub=1, run='for k in 1 2 3; do OMP_NUM_THREADS=8 OMP_DYNAMIC=false ./demo >/dev/null || exit 1; done',
  edits=[('Source/grid.cpp', '#pragma omp parallel for\n   for (size_t ix=0; ix<_nx; ix++) {\n      std::vector<double> inter(    _nlat*_nphi);\n      std::vector<double> inter_ddv(_nlat*_nphi);\n', '   std::vector<double> inter(    _nlat*_nphi);\n   std::vector<double> inter_ddv(_nlat*_nphi);\n#pragma omp parallel for\n   for (size_t ix=0; ix<_nx; ix++) {\n')],
  needs='several threads inside the spherical Laplacian at the same time', breaks='all threads share one row buffer',
  demo=PRE + r'''#include "grid.hpp"
int main() { Grid g(10,1,10,64,6,6,16,24); const size_t n=16*24, N=64*n; std::vector<double> v(N), a(N); auto y=g.compute_ylm(3,2);
 for (int ix=0;ix<64;ix++) for (size_t k=0;k<n;k++) v[ix*n+k]=(ix+1)*y[k];
 for (int r=0;r<3;r++) { g.set_spherical_lap(v,a); for (size_t i=0;i<N;i++) CHECK(std::fabs(a[i]+12*v[i])<1e-7); } return bad; }
''')
COUNT = r'''
#include <set>
#include <mutex>
static std::set<void*> live; static std::mutex mu; static int misuse = 0;
extern "C" void *fftw_malloc(size_t n) { std::lock_guard<std::mutex> l(mu); void *p = std::malloc(n ? n : 1); live.insert(p); return p; }
extern "C" void fftw_free(void *p) { std::lock_guard<std::mutex> l(mu); if (p) { if (!live.erase(p)) { misuse = 1; return; } std::free(p); } }
'''
S(id='zero-field-leak', prop='C12', srcs='sphere', stub=1,
  edits=[('Source/sphere.cpp', '   spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);\n\n   for (size_t l=0; l<_lmax; l++) {', '   spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);\n\n   /* nothing to sum up for a vanishing shell */\n   bool empty = true;\n   for (size_t lm=0; lm<_nYlm; lm++) {\n      if (Ylm_tmp[lm]!=cplx(0)) empty = false;\n   }\n   if (empty) {\n      for (size_t l=0; l<_lmax; l++) p[l] = 0;\n      free(Sph_tmp);\n      return;\n   }\n   for (size_t l=0; l<_lmax; l++) {')],
  needs='a shell on which the field vanishes identically', breaks='the coefficient buffer of a vanishing shell is never released',
  demo=PRE + COUNT + r'''#include "sphere.hpp"
int main() { { Sphere s(4,4,8,10); std::vector<double> v(s.nSph()), p(4); size_t n0=live.size(); s.power_spectrum(v,p); CHECK(live.size()==n0); for (size_t i=0;i<v.size();i++) v[i]=sin(i); s.power_spectrum(v,p); CHECK(live.size()==n0); s.filter(v); CHECK(live.size()==n0); CHECK(!misuse); } return bad; }
''')
S(id='cheb-der-scratch', prop='C07', srcs='cheb', flags='-fsanitize=address',
  edits=[('Source/cheb.cpp', '   for (size_t i=_n-2; i>=1; i--) { \n      ch_tmp[i-1] = 2.0*i*dv[i] + ch_tmp[i+1];', '   for (size_t i=_n-1; i>=1; i--) { \n      ch_tmp[i-1] = 2.0*i*dv[i] + ((i+1<=_n) ? ch_tmp[i+1] : 0);')],
  needs='a memory checker (the value read past the end is multiplied into the highest coefficient, which is usually 0 there)', breaks='the derivative recurrence reads one element past its scratch array',
  demo=PRE + r'''#include "cheb.hpp"
int main() { for (int n : {16,17,33}) { Cheb c(n,0,1); std::vector<double> v(n), d(n); for (int i=0;i<n;i++) v[i]=c.pt(i); c.der(v,d); for (int i=0;i<n;i++) CHECK(std::fabs(d[i]-1)<1e-8); c.filter(v); } return bad; }
''')
S(id='assert-swapped-corner', prop='C33', srcs='grid sphere finite_diff', stub=1,
  edits=[('Source/grid.hpp', '      assert(in.size() ==_nx*_nphi*_nlat);\n      assert(out.size()==_nphi*_nlat);', '      assert(in.size() ==_nx*_nphi*_nlat);\n      assert(out.size()==_nphi*_nlat && indx_th_ph(_nphi-1,0)<out.size());')],
  needs='assertions on and more azimuthal than polar points', breaks='a valid call on a grid with nphi > nlat aborts in debug builds',
  demo=PRE + r'''#include "grid.hpp"
int main() { for (int k=0;k<2;k++) { const int nlat=k?9:5, nphi=k?7:9; Grid g(10,1,10,12,3,2,nlat,nphi); std::vector<double> v(12*nlat*nphi,1.0), d(v.size()); g.set_partial_phi(v,d); for (double x : d) CHECK(std::fabs(x)<1e-9); } return bad; }
''')
# ------------------------------------------------------------------ grid, output, driver, launcher
S(id='cell-diagonal', prop='C20', srcs='grid sphere finite_diff', stub=1,
  edits=[('Source/grid.cpp', '            +  pow(\n                  v[indx_R_th_ph(ix, it+1, ip)] \n               -  v[indx_R_th_ph(ix, it,   ip)]', '            +  pow(\n                  v[indx_R_th_ph(ix, it+1, ip)] \n               -  v[indx_R_th_ph(ix+1, it,   ip)]')],
  needs='a field that varies in radius and polar angle at once', breaks='the polar difference of the total variation is taken across two radii',
  demo=PRE + r'''#include "grid.hpp"
int main() { Grid g(10,1,10,12,3,3,6,8); const size_t N=12*6*8; std::vector<double> v(N); for (int ix=0;ix<12;ix++) for (int it=0;it<6;it++) for (int ip=0;ip<8;ip++) v[g.indx_R_th_ph(ix,it,ip)]=3*ix+4*it;
 CHECK(std::fabs(g.total_variation(v)-5.0*11*5*7/N)<1e-12); return bad; }
''')
S(id='xyz-negative-rows', prop='C30', srcs='io grid sphere finite_diff', stub=1,
  edits=[('Source/io.cpp', "         &&  (fabs(vals[i])<vmax)", "         &&  (vals[i]<vmax)")],
  needs='a field value below -vmax', breaks='large negative values are written although they are outside the requested bounds',
  demo=PRE + r'''#include "grid.hpp"
#include "io.hpp"
int main() { Grid g(10,1,10,12,3,3,6,8); const size_t N=12*6*8; std::vector<double> v(N,0.0); v[100]=0.5; v[101]=-0.5; v[102]=-7; v[103]=7; std::remove("o_XYZ_3.csv"); Csv::write_x_y_z(g,"o",true,3,1e-3,1.0,0,1e9,v);
 std::ifstream f("o_XYZ_3.csv"); std::string l; int n=0; while (std::getline(f,l)) n++; CHECK(n==3); return bad; }
''')
MAINRUN = r'''#!/bin/bash
# cwd: the repository. exit 0: behaves as required
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -fopenmp -I"$D" -ISource Source/main.cpp Source/io.cpp Source/initial_data.cpp Source/scalar_eom.cpp Source/field.cpp Source/params.cpp Source/grid.cpp Source/sphere.cpp Source/finite_diff.cpp "$D/shtns_stub.cpp" -lfftw3 -lm -o "$T/sim" || exit 0
cd "$T"
run() { # nt, t_step_save, directory
 mkdir -p "$3"; printf 'nt %s\nnx 12\nnl 3\nnm 3\nnlat 6\nnphi 8\nt_step_save %s\ndt 0.01\ncompactification_length 10\nRmax 10\nRmin 1.5\nblack_hole_mass 1\nblack_hole_spin 0.5\nkm1 0\nk0 1\nk1 0\nk2 0\nV2 0\nV3 0\nV4 0\ninitial_data_type compact_pulse\ninitial_data_direction ingoing\namp 0.5\nrl 1.9\nru 12\nl_ang 2\nm_ang 1\n' $1 $2 > p.txt; ./sim p.txt "$3" >/dev/null; }
'''
S(id='rho-stale-snapshot', prop='C31', sh=MAINRUN + r'''
run 9 1 a; run 9 2 b
for s in 1 2 3; do for k in f rho; do cmp -s a/${k}_RPsl_$((2*s)).csv b/${k}_RPsl_$s.csv || { echo "$k snapshot $s differs"; exit 1; }; done; done
exit 0
''', stub=1, edits=[('Source/main.cpp', '            scalar_eom.set_rho(grid, f.np1, p.np1, rho);\n\n//', '            if (save_indx>1 || params.t_step_save()==1) scalar_eom.set_rho(grid, f.np1, p.np1, rho);\n\n//')],
  needs='a save interval larger than 1, first snapshot after the initial one', breaks='the first density snapshot repeats the initial density')
S(id='shift-only-when-saving', prop='C31', sh=MAINRUN + r'''
run 8 1 a; run 8 3 b
for s in 1 2; do cmp -s a/f_RPsl_$((3*s)).csv b/f_RPsl_$s.csv || { echo "snapshot $s differs"; exit 1; }; done
exit 0
''', stub=1, edits=[('Source/main.cpp', '   f.shift();\n   p.shift();', '   f.shift();\n   if (itm%params.t_step_save()==0 || itm<params.t_step_save()) p.shift();')],
  needs='more steps than the save interval, interval larger than 1', breaks='between later snapshots the momentum is not carried over to the next step')
S(id='dt-angular-only', prop='C29', sh=r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); cd "$R"
PYTHONDONTWRITEBYTECODE=1 python3 - <<'P'
import sys
sys.path.insert(0, '.')
from sim_class import Sim
for nx, nlat, nphi in ((97, 40, 64), (20, 40, 64), (20, 64, 40)):
    s = Sim(); s.black_hole_mass = 1.; s.black_hole_spin = .5; s.compactification_length = 20.; s.rl_0 = 1.1; s.ru_0 = 3.; s.use_cheb = True; s.nx = nx; s.nlat = nlat; s.nphi = nphi; s.evolve_time = 10.; s.num_saved_times = 10; s.cfl = .5
    s.set_derived_params()
    assert abs(s.dt - 6./max(nx, nlat, nphi)**2) < 1e-15, (nx, nlat, nphi, s.dt)
P
''', edits=[('sim_class.py', '6.*pow(max([self.nx,self.nlat,self.nphi]),-2)', '6.*pow(max([self.nx,self.nlat]),-2)')],
  needs='more azimuthal than polar and radial points', breaks='the Chebyshev time step ignores the azimuthal resolution')
S(id='short-float-params', prop='C28', sh=r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
PYTHONDONTWRITEBYTECODE=1 T="$T" python3 - <<'P'
import sys, os
sys.path.insert(0, '.')
from sim_class import Sim
s = Sim(); s.black_hole_mass = 1.; s.black_hole_spin = 0.9999000000000001; s.nx = 8193; s.dt = 6./64**2/7; s.nt = 12345678; s.initial_data_direction = 'ingoing'; s.output_dir = os.environ['T']
s.write_sim_params()
d = dict(l.split(None, 1) for l in open(os.environ['T'] + '/params.txt') if len(l.split()) > 1)
assert float(d['black_hole_spin']) == s.black_hole_spin and float(d['dt']) == s.dt and int(d['nt']) == s.nt and d['initial_data_direction'].strip() == 'ingoing', d
P
''', edits=[('sim_class.py', "            else:\n               f.write('{} {}\\n'.format(param,attrs[param]))", "            elif type(attrs[param])==float:\n               f.write('{} {:.10g}\\n'.format(param,attrs[param]))\n            else:\n               f.write('{} {}\\n'.format(param,attrs[param]))")],
  needs='a parameter with more than ten significant digits', breaks='real parameters are rounded to ten digits in the parameter file')
LAUNCH = r'''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp sim_class.py "$T/"; cd "$T" && mkdir Bin && echo stale > Bin/sim && PYTHONDONTWRITEBYTECODE=1 python3 - <<'P'
import sys, os
sys.path.insert(0, '.')
import sim_class
from sim_class import Sim
seen = []
def call(cmd, shell=False, **k):
    if not isinstance(cmd, str): cmd = ' '.join(cmd)
    if 'make' in cmd and 'sim' in cmd.split(): open(os.path.join(s.home_dir, 'Bin', 'sim'), 'w').write('fresh')
    if cmd.startswith('./sim') or ' ./sim' in cmd: seen.append((open('sim').read().strip(), os.environ.get('OMP_NUM_THREADS'), os.environ.get('OMP_MAX_ACTIVE_LEVELS')))
    return 0
class Done: returncode, stdout, stderr = 0, '', ''
sim_class.subprocess.call = sim_class.subprocess.check_call = call
sim_class.subprocess.run = lambda *a, **k: (call(*a, **k), Done())[1]
sim_class.os.system = call
def sim(**k):
    global s
    s = Sim()
    s.home_dir = os.getcwd(); s.out_stem = os.getcwd()
    d = dict(black_hole_mass=1., black_hole_spin=.5, compactification_length=20., rl_0=1.1, ru_0=3., use_cheb=True, nx=20, nl=4, nm=4, nlat=8, nphi=8, evolve_time=10., num_saved_times=10, cfl=.5, recompile=True, computer='home', time_it=False, bin_name='sim', num_threads=6, num_omp_levels=2)
    d.update(k)
    for a, b in d.items(): setattr(s, a, b)
    n = [0]
    def mk(self=None):
        s.output_dir = os.path.join(os.getcwd(), 'run%d' % len(seen)); os.makedirs(s.output_dir)
    s.make_output_dir = mk
    s.launch_run()
    return seen[-1]
'''
S(id='copy-before-build', prop='C34', sh=LAUNCH + r'''
assert sim()[0] == 'fresh', seen
P
''', edits=[('sim_class.py', "      if self.recompile==True:\n         self.then_recompile()\n\n      self.write_sim_params()\n\n", "      self.write_sim_params()\n\n"),
            ('sim_class.py', "         '{}/{}'.format(self.output_dir, self.bin_name)\n      )\n", "         '{}/{}'.format(self.output_dir, self.bin_name)\n      )\n      if self.recompile==True:\n         self.then_recompile()\n")],
  needs='a run that recompiles while an older executable exists', breaks='the run uses the executable from before the recompilation')
S(id='threads-if-unset', prop='C34', sh=LAUNCH + r'''
os.environ.pop('OMP_NUM_THREADS', None)
assert sim(num_threads=6)[1] == '6', seen
assert sim(num_threads=3)[1] == '3', seen
P
''', edits=[('sim_class.py', "         os.environ['OMP_NUM_THREADS']= str(self.num_threads)", "         os.environ.setdefault('OMP_NUM_THREADS', str(self.num_threads))")],
  needs='OMP_NUM_THREADS already set, for example by the previous run of the same script', breaks='the second run uses the thread count of the first')
S(id='time-of-snapshot', prop='C35', sh=MAINRUN.replace('>/dev/null; }', '> "$3/out"; }') + r'''
run 9 1 a; run 9 3 b
t() { awk '/Grid 0/ {printf "%g ", $1}' $1; }
[ "$(t b/out)" = "0 0.03 0.06 " ] && [ "$(t a/out)" = "0 0.01 0.02 0.03 0.04 0.05 0.06 0.07 0.08 " ] || { cat b/out; exit 1; }
exit 0
''', stub=1, edits=[('Source/main.cpp', '            <<std::setw(16)<<params.dt()*itm;', '            <<std::setw(16)<<params.dt()*save_indx;')],
  needs='a save interval larger than 1', breaks='the reported time counts snapshots instead of steps')
S(id='last-step-dropped', prop='C35', sh=MAINRUN + r'''
run 6 1 a; run 7 3 b; run 8 3 c
[ -e a/f_RPsl_5.csv ] && [ ! -e a/f_RPsl_6.csv ] && [ -e b/f_RPsl_2.csv ] && [ -e c/f_RPsl_2.csv ] || { ls a b c; exit 1; }
exit 0
''', stub=1, edits=[('Source/main.cpp', 'itm<params.nt(); itm++', 'itm+params.t_step_save()/2<params.nt(); itm++')],
  needs='a save interval larger than 1 and a run that ends exactly at a snapshot', breaks='the last snapshot of the run is never reached')
