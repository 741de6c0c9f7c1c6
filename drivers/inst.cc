// Instantiates the header-only entry points for the four genotype/phenotype
// combinations the library is built for. Parsed by the checks, never run.
#include <libcmaes/cmaes.h>
#include <libcmaes/surrcmaes.h>
#include <libcmaes/errstats.h>
#include <libcmaes/contour.h>
template class RankingSVM<RBFKernel>;
namespace libcmaes {
typedef GenoPheno<NoBoundStrategy> GP0;
typedef GenoPheno<pwqBoundStrategy> GP1;
typedef GenoPheno<NoBoundStrategy,linScalingStrategy> GP2;
typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> GP3;
#define INST(G) template CMASolutions cmaes<G>(FitFunc&,CMAParameters<G>&,ProgressFunc<CMAParameters<G>,CMASolutions>&,GradFunc,const CMASolutions&,PlotFunc<CMAParameters<G>,CMASolutions>&);
INST(GP0) INST(GP1) INST(GP2) INST(GP3)
template CMASolutions surrcmaes<GP0>(FitFunc&,CMAParameters<GP0>&);
template class CMAParameters<GP0>; template class CMAParameters<GP1>;
template class CMAParameters<GP2>; template class CMAParameters<GP3>;
template class Parameters<GP0>; template class Parameters<GP1>;
template class Parameters<GP2>; template class Parameters<GP3>;
template <class G> void use_gp(G &g, const dMat &m, const dVec &v) {
  dMat a = g.pheno(m); dVec b = g.pheno(v); dVec c = g.geno(v);
  std::vector<int> k; g.remove_dimensions(k);
  (void)g.get_boundstrategy_ref(); (void)g.get_boundstrategy(); (void)g.get_scalingstrategy();
}
template void use_gp<GP0>(GP0&,const dMat&,const dVec&);
template void use_gp<GP1>(GP1&,const dMat&,const dVec&);
template void use_gp<GP2>(GP2&,const dMat&,const dVec&);
template void use_gp<GP3>(GP3&,const dMat&,const dVec&);
template <class G> void make_gp(TransFunc &gf, TransFunc &pf, const double *lb, const double *ub, int dim, const dVec &sc, const dVec &sh) {
  G a; G b(gf,pf); G c(lb,ub,dim); G d(gf,pf,lb,ub,dim); G e(sc,sh); G f(sc,sh,lb,ub);
}
template void make_gp<GP0>(TransFunc&,TransFunc&,const double*,const double*,int,const dVec&,const dVec&);
template void make_gp<GP1>(TransFunc&,TransFunc&,const double*,const double*,int,const dVec&,const dVec&);
template void make_gp<GP2>(TransFunc&,TransFunc&,const double*,const double*,int,const dVec&,const dVec&);
template void make_gp<GP3>(TransFunc&,TransFunc&,const double*,const double*,int,const dVec&,const dVec&);
// geno(matrix) only where the bound strategy provides the inverse map
inline void use_geno_mat(GP1 &g1, GP3 &g3, const dMat &m) { dMat a = g1.geno(m); dMat b = g3.geno(m); }
}
namespace libcmaes {
template <class G> void use_sols(CMASolutions &s, CMAParameters<G> &p) { dVec a = s.stds(p); dVec b = s.errors(p); }
template void use_sols<GP0>(CMASolutions&,CMAParameters<GP0>&);
template void use_sols<GP1>(CMASolutions&,CMAParameters<GP1>&);
template void use_sols<GP2>(CMASolutions&,CMAParameters<GP2>&);
template void use_sols<GP3>(CMASolutions&,CMAParameters<GP3>&);
}
