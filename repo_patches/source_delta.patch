From df7e334314d5b01372e6ee1bbd1f6b3f4b8f579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 01/11] fix: spherical operators skip the highest degree l and
 order m

The loops over (l,m) stopped at l<_lmax and m<min(l+1,_mmax), so coefficients
with l=_lmax or m=_mmax were left untouched by the Laplacian, the phi
derivative, the filter and the raising and lowering operators, and the power
spectrum missed m=_mmax.
---
 Source/sphere.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..d100fa7 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;               l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);   m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;               l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);   m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -265,7 +265,7 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=int(l); m>-int(l); m--) {
          Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
       }
@@ -299,7 +299,7 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=-int(l); m<int(l); m++) {
          Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
       }
@@ -354,8 +354,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;               l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);   m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
@@ -387,7 +387,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From 958c5d87b8f1fc387b345165a66b83aa5db0fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 02/11] fix: set_row_ph copied _nlat instead of _nphi values

---
 Source/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..4f04f12 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
-- 
2.43.0


From 0ab42f6b640c2329f54794e64759f9216c85c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 03/11] fix: get_row_R_ph asserted the wrong output size

---
 Source/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 4f04f12..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From f8aa8d494525b8b27a441ec615ce1f9a2b04c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 04/11] fix: set_rho applied the factor 1/2 twice

---
 Source/scalar_eom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..67d0a26 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*(
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From b9d9c6c2b7876b506376f2ac25b5f514c3cd822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 05/11] fix: sign of the v-r cross term of the energy density

---
 Documentation/main.tex | 2 +-
 Source/scalar_eom.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Documentation/main.tex b/Documentation/main.tex
index 4ae33b5..92e67d6 100644
--- a/Documentation/main.tex
+++ b/Documentation/main.tex
@@ -306,7 +306,7 @@ In ingoing Eddington-Finkelstein coordinates we have
    \frac{1}{2}\Bigg[
       \left(1+\frac{2Mr}{\Sigma}\right)
       \left(\partial_v\psi\right)^2
-      +
+      -
       \frac{4Mr}{\Sigma}
       \left(\partial_v\psi\right)\left(\partial_r\psi\right)
       \nonumber\\&
diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 67d0a26..c5d4c54 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -112,7 +112,7 @@ Scalar_eom::Scalar_eom(
       _p_sphereX_f[indx]   *= _pre[indx];
 
       _rho_vv[indx]      = 0.5*(1. + 2.*m*inv_r/Sigma);
-      _rho_vr[indx]      = 2. *m*inv_r/Sigma;
+      _rho_vr[indx]      = -2.*m*inv_r/Sigma;
       _rho_rr[indx]      = 0.5*( 
             ((1. + (2.*m*inv_r)+pow(a*inv_r,2))/Sigma)
          -  (4.*m*inv_r/(2.*m*inv_r + Sigma))     
-- 
2.43.0


From 9913b67174ff92f03a59065736343a50fc686036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 06/11] fix: Grid::filter never filtered the radial lines

---
 Source/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/grid.cpp b/Source/grid.cpp
index 7819e4c..9c60d66 100644
--- a/Source/grid.cpp
+++ b/Source/grid.cpp
@@ -295,9 +295,10 @@ void Grid::filter(std::vector<double> &v) const
       get_row_R(it, ip, v, inter_radial); 
       const double lwr = inter_radial[0    ];
       const double upr = inter_radial[_nx-1];
-      set_row_R(it, ip, inter_radial, v); 
+      _radial.filter(inter_radial);
       inter_radial[0    ] = lwr;
       inter_radial[_nx-1] = upr;
+      set_row_R(it, ip, inter_radial, v); 
    }
    }
 }
-- 
2.43.0


From 11dd3098b35ba1505b21c3b9e38cdc5c7edbe9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 07/11] fix: compact_pulse skipped the last radial point, the
 horizon on Chebyshev grids

---
 Source/initial_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..ff9c1d6 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,7 +36,7 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx; ix++) { /* the bump is zero where r=infty */
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
-- 
2.43.0


From 8ec19ba3b9fe9f22b6302d74b49344a6dfb96632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 08/11] fix: missing parameters and unreadable parameter files
 exit with a failure status

---
 Source/params.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index fa13c17..4cc350b 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -1,4 +1,4 @@
-#include <cassert>
+#include <cstdlib>
 #include <iomanip>
 #include <fstream>
 #include <iostream>
@@ -63,7 +63,10 @@ std::string Params::_read(
       const std::string find_this_var)
 {
    std::ifstream infile(param_file);
-   assert(infile.good());
+   if (!infile.good()) {
+      std::cout<<"ERROR: could not read "<<param_file<<std::endl;
+      std::quick_exit(EXIT_FAILURE);
+   }
 
    std::string line;
 
@@ -83,7 +86,7 @@ std::string Params::_read(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -92,7 +95,10 @@ void Params::_read_array(
       std::vector<size_t> &arr)
 {
    std::ifstream infile(param_file);
-   assert(infile.good());
+   if (!infile.good()) {
+      std::cout<<"ERROR: could not read "<<param_file<<std::endl;
+      std::quick_exit(EXIT_FAILURE);
+   }
 
    std::string line;
 
@@ -114,7 +120,7 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -123,7 +129,10 @@ void Params::_read_array(
       std::vector<double> &arr)
 {
    std::ifstream infile(param_file);
-   assert(infile.good());
+   if (!infile.good()) {
+      std::cout<<"ERROR: could not read "<<param_file<<std::endl;
+      std::quick_exit(EXIT_FAILURE);
+   }
 
    std::string line;
 
@@ -144,5 +153,5 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
-- 
2.43.0


From 44588d7653d2b737041c36527ecd32350a9ae4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 09/11] fix: copies of Cheb and Sphere freed the same plan or
 configuration twice

---
 Source/cheb.hpp   | 3 +++
 Source/sphere.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Source/cheb.hpp b/Source/cheb.hpp
index b054e8c..323759a 100644
--- a/Source/cheb.hpp
+++ b/Source/cheb.hpp
@@ -12,6 +12,9 @@ class Cheb {
 public:
    Cheb(const size_t n, const double lower, const double upper);
    ~Cheb();
+   /* owns an fftw plan */
+   Cheb(const Cheb&) = delete;
+   Cheb& operator=(const Cheb&) = delete;
 
    size_t n() const;
    double lower() const; 
diff --git a/Source/sphere.hpp b/Source/sphere.hpp
index 16e4872..997edab 100644
--- a/Source/sphere.hpp
+++ b/Source/sphere.hpp
@@ -39,6 +39,9 @@ public:
          const size_t nphi
          );
    ~Sphere();
+   /* owns a shtns configuration */
+   Sphere(const Sphere&) = delete;
+   Sphere& operator=(const Sphere&) = delete;
 
    size_t nlat() const;
    size_t nphi() const;
-- 
2.43.0


From e2135ce3244a2099474b196a383c1d41221639bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 10/11] fix: ~Cheb invalidated the plans of every other Cheb

---
 Source/cheb.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..dfcdd2a 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -42,7 +42,6 @@ Cheb::~Cheb()
    assert(_plan_dct!=nullptr);
 
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0


From 85fd8b8d5be72038634bf235faa8778eb41c28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 11/11] fix: executables were linked from objects built for the
 other radial scheme

---
 config.py    | 4 ++++
 sim_class.py | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/config.py b/config.py
index 6ad5508..b75095f 100755
--- a/config.py
+++ b/config.py
@@ -17,6 +17,9 @@ parser.add_argument('-p','--profile',
 
 args = parser.parse_args()
 
+## the object files do not record which options they were compiled with
+subprocess.call('make clean_Source', shell=True)
+
 print("=====================================================")
 print("Compiling radial Chebyshev executable")
 print("=====================================================")
@@ -24,6 +27,7 @@ subprocess.call(
       'make debug={} profile={} use_cheb=true use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
       )
+subprocess.call('make clean_Source', shell=True)
 print("=====================================================")
 print("Compiling radial finite difference executable")
 print("=====================================================")
diff --git a/sim_class.py b/sim_class.py
index 19b5c61..b6ccdc9 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -145,5 +145,8 @@ class Sim:
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-      subprocess.call('make clean_obj'+self.bin_name,shell=True)
-      subprocess.call('make '+self.bin_name,shell=True)
+      flags= ' use_contiguous_longitudes=true'
+      if (self.use_cheb==True):
+         flags+= ' use_cheb=true'
+      subprocess.call('make clean_Source',shell=True)
+      subprocess.call('make '+self.bin_name+flags,shell=True)
-- 
2.43.0

