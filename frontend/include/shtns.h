/* Declarations (no definitions) of the part of the SHTns API that
 * scalar-field-kerr can use; written from SHTns' public documentation so that
 * the solver's sources can be type-checked without the library.
 * Used by the analyses only; nothing is ever linked against it. */
#ifndef VERIF_SHTNS_H
#define VERIF_SHTNS_H
#include <complex>
#include <cstddef>
typedef std::complex<double> cplx;
enum shtns_type {
   sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init,
   sht_reg_poles, sht_gauss_fly,
   SHT_THETA_CONTIGUOUS = 256, SHT_PHI_CONTIGUOUS = 256*2,
   SHT_NATIVE_LAYOUT = 0, SHT_SCALAR_ONLY = 256*16, SHT_LOAD_SAVE_CFG = 256*64
};
enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt, sht_for_rotations };
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM (256*8)
struct shtns_info {
   unsigned int nlm;
   unsigned short lmax;
   unsigned short mmax;
   unsigned short mres;
   unsigned short nlat_2;
   unsigned int nlat;
   unsigned int nphi;
   unsigned int nspat;
   unsigned short *li;
   unsigned short *mi;
   double *ct;
   double *st;
   unsigned int nlat_padded;
   unsigned int nlm_cplx;
};
typedef struct shtns_info *shtns_cfg;
extern "C" {
void shtns_verbose(int);
void shtns_print_version(void);
int shtns_use_threads(int num_threads);
shtns_cfg shtns_init(enum shtns_type flags, int lmax, int mmax, int mres, int nlat, int nphi);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
int shtns_set_grid_auto(shtns_cfg, enum shtns_type flags, double eps, int nl_order, int *nlat, int *nphi);
void shtns_destroy(shtns_cfg);
void shtns_unset_grid(shtns_cfg);
void shtns_reset(void);
void *shtns_malloc(size_t);
void shtns_free(void *);
void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_to_SH_l(shtns_cfg, double *Vr, cplx *Qlm, int ltr);
void SH_to_spat_l(shtns_cfg, cplx *Qlm, double *Vr, int ltr);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
}
/* index of (l,m) in the packed array of real-field coefficients */
size_t LM(shtns_cfg, unsigned l, unsigned m);
size_t LiM(shtns_cfg, unsigned l, unsigned im);
#define NSPAT_ALLOC(shtns) ((shtns)->nspat)
#define NLM(shtns) ((shtns)->nlm)
#endif
