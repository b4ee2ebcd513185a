/* Slow but exact stand-in for the part of SHTns the solver uses, so that a demonstration can
 * run the solver's real code in a sandbox without the library. */
#ifndef STUB_SHTNS_H
#define STUB_SHTNS_H
#include <complex>
#include <cstddef>
typedef std::complex<double> cplx;
enum shtns_type {
   sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init, sht_reg_poles, sht_gauss_fly,
   SHT_THETA_CONTIGUOUS = 256, SHT_PHI_CONTIGUOUS = 512, SHT_NATIVE_LAYOUT = 0,
   SHT_SCALAR_ONLY = 4096, SHT_LOAD_SAVE_CFG = 16384
};
enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt, sht_for_rotations };
struct shtns_info {
   unsigned int nlm; unsigned short lmax, mmax, mres, nlat_2;
   unsigned int nlat, nphi, nspat;
   unsigned short *li, *mi; double *ct, *st;
   unsigned int nlat_padded, nlm_cplx;
   int phic; double *w;
};
typedef struct shtns_info *shtns_cfg;
extern "C" {
void shtns_verbose(int);
int shtns_use_threads(int);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm);
int shtns_set_grid(shtns_cfg, enum shtns_type, double eps, int nlat, int nphi);
void shtns_destroy(shtns_cfg);
void spat_to_SH(shtns_cfg, double *, cplx *);
void SH_to_spat(shtns_cfg, cplx *, double *);
void spat_cplx_to_SH(shtns_cfg, cplx *, cplx *);
void SH_to_spat_cplx(shtns_cfg, cplx *, cplx *);
}
inline size_t LM(shtns_cfg s, size_t l, size_t m) { return m*(2*(s->lmax+1)-(m+1))/2 + l; }
#define NSPAT_ALLOC(s) ((s)->nspat)
#endif
