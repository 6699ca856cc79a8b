#ifndef CERES_PUBLIC_INTERNAL_CONFIG_H_
#define CERES_PUBLIC_INTERNAL_CONFIG_H_
#define CERES_USE_EIGEN_SPARSE
#define CERES_NO_LAPACK
#define CERES_NO_SUITESPARSE
#define CERES_NO_CUDA
#define CERES_NO_CUDSS
#define CERES_NO_ACCELERATE_SPARSE
#define CERES_NO_CHOLMOD_PARTITION
#define CERES_NO_EIGEN_METIS
#define CERES_RESTRICT_SCHUR_SPECIALIZATION
#endif
